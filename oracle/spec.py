"""Executable specification of eno documents, written from the property statements.

Deliberately naive: no regular expressions, no caches, explicit recursion.  It is
used (a) to replay obligations the verifier could not discharge on the real code,
(b) as the labelled-bounded stand-in for functions outside the verifier's reach and
(c) as the CPython cross-check of the verifier itself.
"""

WS = str.isspace


def lstripped(text, begin, end):
    while begin < end and text[begin].isspace():
        begin += 1
    return begin


def rstripped(text, begin, end):
    while end > begin and text[end - 1].isspace():
        end -= 1
    return end


def trim(text, begin, end):
    """Slice without surrounding whitespace, None if nothing is left."""
    begin = lstripped(text, begin, end)
    end = rstripped(text, begin, end)
    return (begin, end) if begin < end else None


def run(text, begin, end, ch):
    i = begin
    while i < end and text[i] == ch:
        i += 1
    return i - begin


class Line:
    __slots__ = ('no', 'begin', 'end', 'kind', 'ranges', 'text')

    def __init__(self, no, begin, end, kind, ranges, text):
        self.no, self.begin, self.end, self.kind, self.ranges, self.text = no, begin, end, kind, ranges, text

    def get(self, name):
        r = self.ranges.get(name)
        return None if r is None else self.text[r[0]:r[1]]

    def __repr__(self):
        return f'{self.no}:{self.kind}:{self.text[self.begin:self.end]!r}'


def escaped_key(text, begin, end, tail):
    """A key between equally long runs of backticks, followed by a valid tail."""
    n = run(text, begin, end, '`')
    start = lstripped(text, begin + n, end)
    for stop in range(start + 1, end + 1):
        if text[stop - 1].isspace():
            continue
        close = lstripped(text, stop, end)
        if close + n <= end and text[close:close + n] == '`' * n:
            rest = tail(close + n)
            if rest is not None:
                return dict({'escape_begin_operator': (begin, begin + n), 'key': (start, stop),
                             'escape_end_operator': (close, close + n)}, **rest)
    return None


def classify(text, no, begin, end):
    """Classify one line (without its newline); None if it fits no construct."""
    b = lstripped(text, begin, end)
    e = rstripped(text, b, end)

    def line(kind, **ranges):
        return Line(no, begin, end, kind, {k: v for k, v in ranges.items() if v is not None}, text)

    if b == e:
        return line('blank')
    c = text[b]
    if c == '|':
        return line('continuation', direct_line_continuation_operator=(b, b + 1), value=trim(text, b + 1, e))
    if c == '\\':
        return line('continuation', spaced_line_continuation_operator=(b, b + 1), value=trim(text, b + 1, e))
    if c == '>':
        return line('comment', comment_operator=(b, b + 1), comment=trim(text, b + 1, e))
    if c == '-':
        n = run(text, b, e, '-')
        rest = trim(text, b + n, e)
        if n == 1:
            return line('item', item_operator=(b, b + 1), value=rest)
        if rest is None:
            return None
        return line('multiline', multiline_field_operator=(b, b + n), key=rest)
    if c == '#':
        n = run(text, b, e, '#')

        def tail(pos):
            pos = lstripped(text, pos, e)
            if pos == e:
                return {}
            if text[pos] != '<':
                return None
            m = 2 if pos + 1 < e and text[pos + 1] == '<' else 1
            template = trim(text, pos + m, e)
            if template is None:
                return None
            return {'deep_copy_operator' if m == 2 else 'copy_operator': (pos, pos + m), 'template': template}
        k = lstripped(text, b + n, e)
        if k == e or text[k] == '<':
            return None
        if text[k] == '`':
            found = escaped_key(text, k, e, tail)
            return None if found is None else line('section', section_operator=(b, b + n), **found)
        stop = k
        while stop < e and text[stop] != '<':
            stop += 1
        found = tail(stop)
        return None if found is None else line('section', section_operator=(b, b + n), key=trim(text, k, stop), **found)

    def tail(pos):
        pos = lstripped(text, pos, e)
        if pos == e:
            return None
        if text[pos] == ':':
            return {'element_operator': (pos, pos + 1), 'value': trim(text, pos + 1, e)}
        if text[pos] == '=':
            return {'entry_operator': (pos, pos + 1), 'value': trim(text, pos + 1, e)}
        if text[pos] == '<':
            template = trim(text, pos + 1, e)
            return None if template is None else {'copy_operator': (pos, pos + 1), 'template': template}
        return None
    if c in ':=<':
        return None
    if c == '`':
        found = escaped_key(text, b, e, tail)
    else:
        stop = b
        while stop < e and text[stop] not in ':=<':
            stop += 1
        found = tail(stop)
        if found is not None:
            found = dict(found, key=trim(text, b, stop))
    if found is None:
        return None
    if 'element_operator' in found:
        kind = 'field' if found['value'] is not None else 'empty'
    elif 'entry_operator' in found:
        kind = 'entry'
    else:
        kind = 'copy'
    return line(kind, **found)


def split_lines(text):
    out, begin = [], 0
    while True:
        nl = text.find('\n', begin)
        if nl < 0:
            out.append((begin, len(text)))
            return out
        out.append((begin, nl))
        begin = nl + 1


def unterminated_escape(text, begin, end):
    """Position behind the opening backticks of a key that is never closed, or None."""
    i = lstripped(text, begin, end)
    i += run(text, i, end, '#')
    i = lstripped(text, i, end)
    n = run(text, i, end, '`')
    if n == 0 or i + n == end or '`' * n in text[i + n:end]:
        return None
    return i + n


class Node:
    """An element (or the document) as written, before copies are resolved."""

    def __init__(self, kind, line=None, parent=None):
        self.kind, self.line, self.parent = kind, line, parent
        self.own_comments = None
        self.key = line.get('key') if line else None
        self.template = line.get('template') if line else None
        self.deep = bool(line) and 'deep_copy_operator' in line.ranges
        self.continuations, self.items, self.entries, self.elements = [], [], [], []
        self.lines, self.end = [], None
        self.target = None            # resolved template
        self.merged = None            # template through a deep merge

    @property
    def no(self):
        return self.line.no

    def __repr__(self):
        return f'<{self.kind} {self.key!r} @{self.line.no if self.line else "doc"}>'

    # ---------------------------------------------------------- resolved view
    def source(self):
        return self.target or self.merged

    def type(self):
        """The kind an element has after copying."""
        if self.kind == 'empty' and self.source() is not None:
            t = self.source().type()
            return {'multiline': 'field'}.get(t, t)
        return self.kind

    def is_mirror(self):
        """Copied without content of its own, from something with content."""
        if self.source() is None:
            return False
        if self.kind == 'section':
            return not self.elements
        return self.kind == 'empty' and self.source().type() != 'empty'

    def content(self):
        """The elements of a section / document."""
        if self.source() is None:
            return list(self.elements)
        if not self.elements:
            return self.source().content()
        own = {e.key for e in self.elements}
        return [e for e in self.source().content() if e.key not in own] + self.elements

    def all_entries(self):
        if self.type() != 'fieldset':
            return []
        if self.source() is None or self.source().type() != 'fieldset':
            return list(self.entries)
        if not self.entries:
            return self.source().all_entries()
        own = {e.key for e in self.entries}
        return [e for e in self.source().all_entries() if e.key not in own] + self.entries

    def all_items(self):
        if self.type() != 'list':
            return []
        if self.source() is None or self.source().type() != 'list':
            return list(self.items)
        return self.source().all_items() + self.items

    def comments(self):
        if self.own_comments is not None:
            return self.own_comments
        return self.source().comments() if self.source() is not None else None

    def comment(self):
        lines = self.comments()
        if not lines:
            return None
        texts = [(i, l) for i, l in enumerate(lines) if l.get('comment') is not None]
        if not texts:
            return None
        if len(lines) == 1:
            return lines[0].get('comment')
        shared = min(l.ranges['comment'][0] - l.begin for _, l in texts)
        out = []
        for l in lines[texts[0][0]:texts[-1][0] + 1]:
            c = l.get('comment')
            out.append('' if c is None else ' ' * (l.ranges['comment'][0] - l.begin - shared) + c)
        return '\n'.join(out)

    def value(self):
        if self.is_mirror():
            return self.source().value()
        if self.kind == 'multiline':
            return self.line.text[self.lines[0].begin:self.lines[-1].end] if self.lines else None
        result, spaced = None, False
        for i, l in enumerate([self.line] + self.continuations):
            text = l.get('value')
            if i and 'spaced_line_continuation_operator' in l.ranges:
                spaced = True
            if text is not None:
                result = text if result is None else result + (' ' if spaced else '') + text
                spaced = False
            elif result is None:
                spaced = False
        return result

    def raw(self):
        kind = {'multiline': 'field', 'empty': 'empty_element', 'item': 'list_item', 'entry': 'fieldset_entry'}.get(self.type(), self.type())
        out = {'type': kind}
        if self.kind != 'document' and self.comments() is not None:
            out['comment'] = self.comment()
        if self.kind not in ('document', 'item'):
            out['key'] = self.key
        t = self.type()
        if t in ('field', 'multiline', 'item', 'entry'):
            out['value'] = self.value()
        elif t == 'list':
            out['items'] = [i.raw() for i in self.all_items()]
        elif t == 'fieldset':
            out['entries'] = [i.raw() for i in self.all_entries()]
        elif t in ('section', 'document'):
            out['elements'] = [i.raw() for i in self.content()]
        return out

    # ------------------------------------------------------- textual structure
    def last_line(self):
        """The last line of the element as written."""
        if self.kind == 'multiline':
            return self.end
        if self.kind == 'list' and self.items:
            return self.items[-1].last_line()
        if self.kind == 'fieldset' and self.entries:
            return self.entries[-1].last_line()
        if self.kind == 'section' and self.elements:
            return self.elements[-1].last_line()
        return self.continuations[-1] if self.continuations else self.line


class Problem:
    """A reason to reject the document: message name, arguments, line, selection."""

    def __init__(self, name, args, line, selection, about=()):
        self.name, self.args, self.line, self.selection = name, args, line, selection
        self.about = tuple(about) or (line,)

    def __repr__(self):
        return f'Problem({self.name}{self.args} line={self.line} sel={self.selection})'


class Doc:
    def __init__(self, text):
        self.text = text
        self.line_spans = split_lines(text)
        self.root = Node('document')
        self.problems = []
        self.lines = []           # classified lines outside multiline values, in order
        self.meta = []            # lines belonging to no element (blank lines excluded)
        self.parse()
        if not self.problems:
            self.resolve()

    @property
    def line_count(self):
        return len(self.line_spans)

    def every(self, node=None):
        node = node or self.root
        for e in node.elements:
            yield e
            if e.kind == 'section':
                yield from self.every(e)

    # -------------------------------------------------------------- structure
    def parse(self):
        text = self.text
        spans = self.line_spans
        comments, continuable, attach = None, None, None
        section, depth = self.root, 0
        no = 0
        while no < len(spans):
            begin, end = spans[no]
            line = classify(text, no, begin, end)

            def fail(name, args=None, selection=None, about=()):
                self.problems.append(Problem(name, (no + 1,) if args is None else args, no, selection or (begin, end), about))
            if line is None:
                stop = unterminated_escape(text, begin, end)
                if stop is None:
                    return fail('invalid_line')
                return fail('unterminated_escaped_key', None, (stop, end))
            self.lines.append(line)
            kind = line.kind
            if kind == 'blank':
                self.meta += comments or []
                comments = None
            elif kind == 'comment':
                comments = (comments or []) + [line]
            elif kind == 'continuation':
                if continuable is None:
                    return fail('missing_element_for_continuation')
                continuable.continuations.append(line)
                if continuable.kind == 'empty':
                    continuable.kind = 'field'
                self.meta += comments or []
                comments = None
            else:
                if kind == 'section':
                    ops = line.ranges['section_operator']
                    d = ops[1] - ops[0]
                    if d > depth + 1:
                        return fail('section_hierarchy_layer_skip')
                    while depth >= d:
                        section, depth = section.parent, depth - 1
                    node = Node('section', line, section)
                    section.elements.append(node)
                    section, depth = node, d
                    continuable = attach = None
                elif kind in ('item', 'entry'):
                    container = 'list' if kind == 'item' else 'fieldset'
                    if attach is None or attach.kind not in (container, 'empty'):
                        return fail('missing_list_for_list_item' if kind == 'item' else 'missing_fieldset_for_fieldset_entry')
                    attach.kind = container
                    node = Node(kind, line, attach)
                    (attach.items if kind == 'item' else attach.entries).append(node)
                    continuable = node
                elif kind == 'multiline':
                    node = Node('multiline', line, section)
                    section.elements.append(node)
                    op, key = line.get('multiline_field_operator'), line.get('key')
                    stop = None
                    for j in range(no + 1, len(spans)):
                        l = classify(text, j, *spans[j])
                        if l is not None and l.kind == 'multiline' and l.get('multiline_field_operator') == op and l.get('key') == key:
                            stop = j
                            node.end = l
                            break
                    if stop is None:
                        return fail('unterminated_multiline_field', (key, no + 1))
                    node.lines = [Line(j, spans[j][0], spans[j][1], 'verbatim', {'value': spans[j]}, text) for j in range(no + 1, stop)]
                    self.lines += node.lines + [node.end]
                    no = stop
                    continuable = attach = None
                else:
                    node = Node('empty' if kind == 'copy' else kind, line, section)
                    section.elements.append(node)
                    continuable = None if kind == 'copy' else node
                    attach = node
                node.own_comments = comments
                comments = None
            no += 1
        self.meta += comments or []

    # -------------------------------------------------------------- resolution
    def add(self, name, args, copy, template=False):
        sel = copy.line.ranges['template'] if template else (copy.line.begin, copy.line.end)
        self.problems.append(Problem(name, args, copy.no, sel))

    def resolve(self):
        nodes = list(self.every())
        copies = [n for n in nodes if n.template is not None]
        for c in copies:
            is_section = c.kind == 'section'
            found = [n for n in nodes if (n.kind == 'section') == is_section and n.key == c.template and n.template != n.key]
            if not found:
                self.add('section_not_found' if is_section else 'non_section_element_not_found', (c.no + 1, c.template), c)
            elif len(found) > 1:
                self.add('two_or_more_templates_found', (c.template,), c)
            else:
                c.target = found[0]
        if self.problems:
            # an unresolvable copy and a cycle can be reported in either order
            self.find_cycles(nodes)
            self.find_kind_conflicts(nodes)
            return
        self.find_cycles(nodes)
        if self.problems:
            self.find_kind_conflicts(nodes)
            self.deep_merges(nodes)
            return
        self.find_kind_conflicts(nodes)
        self.deep_merges(nodes)

    def depends(self, n):
        if n.target is not None:
            yield n.target
        if n.kind == 'section':
            for e in n.elements:
                if e.kind == 'section':
                    yield e

    def find_cycles(self, nodes):
        """A copy is cyclic if it lies on a cycle of 'needs the content of'.

        The error may name any copy on the cycle, and the copy of any section the cycle passes through.
        """
        reach = {}
        for c in nodes:
            seen, todo = set(), list(self.depends(c))
            while todo:
                n = todo.pop()
                if id(n) in seen:
                    continue
                seen.add(id(n))
                todo += self.depends(n)
            reach[id(c)] = seen
        on = [c for c in nodes if id(c) in reach[id(c)]]
        for c in on:
            c.cyclic = True
            if c.template is not None:
                self.add('cyclic_dependency', (c.no + 1, c.template), c, True)

    def chain_type(self, n):
        seen = []
        while n.kind == 'empty' and n.target is not None and n not in seen:
            seen.append(n)
            n = n.target
        return {'multiline': 'field'}.get(n.kind, n.kind)

    def find_kind_conflicts(self, nodes):
        for c in nodes:
            if c.target is None or c.kind not in ('list', 'fieldset'):
                continue
            if self.chain_type(c.target) not in (c.kind, 'empty'):
                first = (c.items or c.entries)[0]
                name = 'missing_list_for_list_item' if c.kind == 'list' else 'missing_fieldset_for_fieldset_entry'
                self.problems.append(Problem(name, (first.no + 1,), first.no, (first.line.begin, first.line.end)))

    def deep_merges(self, nodes):
        done = set()

        def settle(n):
            if id(n) in done:
                return
            done.add(id(n))
            for e in n.elements:
                if e.kind == 'section':
                    settle(e)
            if n.target is not None and n.kind == 'section' and not getattr(n, 'cyclic', False):
                settle(n.target)
                if n.deep:
                    merge(n, n.target)

        def merge(section, template):
            if not section.elements:
                return
            theirs = template.content()
            for e in section.elements:
                if e.kind != 'section' or e.template is not None:
                    continue
                if sum(o.key == e.key for o in section.elements) != 1:
                    continue
                match = [o for o in theirs if o.key == e.key]
                if len(match) != 1 or match[0].kind != 'section':
                    continue
                t = match[0]
                if t.target is e:
                    self.add('cyclic_dependency', (t.no + 1, t.template), t, True)
                    continue
                e.merged = t
                merge(e, t)
        if any(p.name == 'cyclic_dependency' for p in self.problems):
            # several faults: a cycle through a deep merge may be found before the others
            if any(n.target is not None and n.deep for n in nodes):
                for n in nodes:
                    if n.target is not None:
                        self.add('cyclic_dependency', (n.no + 1, n.template), n, True)
            return
        for n in nodes:
            settle(n)
