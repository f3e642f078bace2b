"""What earlier verifications learned about the loops of a function: where a verification starts from.

Hints are not trusted: they say which candidate invariants need not be tried and what the loops are known to
modify. A verification that starts from them proves every obligation, the remaining candidates included, and
starts over as soon as a loop does something they do not mention. They are used only while the code they
come from is the same.
"""
import ast
import hashlib
import importlib
import json
import os
import sys
import base64

FOLDER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'hints')
_hash = {}


def digest(module):
    """Of the code of a module: its comments and its layout do not count, its line numbers do."""
    if module not in _hash:
        try:
            with open(importlib.import_module(module).__file__) as f:
                text = ast.dump(ast.parse(f.read()), include_attributes=True)
        except Exception:
            text = ''
        _hash[module] = hashlib.sha256(text.encode()).hexdigest()[:20]
    return _hash[module]


def place(title):
    return os.path.join(FOLDER, hashlib.sha256(title.encode()).hexdigest()[:16] + '.json')


def load(session, title):
    from . import share
    from .loops import Info
    try:
        with open(place(title)) as f:
            d = json.load(f)
        if d['title'] != title or any(digest(m) != h for m, h in d['modules'].items()):
            return False
        share.merge(session.loops, base64.b64decode(d['loops']), Info)
        return True
    except Exception:
        session.loops.clear()
        return False


def save(session, title, target):
    from . import share
    data = share.dump(session.loops, 0)
    if data is None:
        return False
    modules = {target.split(':')[0]} | {q.rsplit('.', 2)[0] if q.rsplit('.', 2)[0] in sys.modules else q.rsplit('.', 1)[0] for q in session.used}
    os.makedirs(FOLDER, exist_ok=True)
    with open(place(title), 'w') as f:
        json.dump({'title': title, 'modules': {m: digest(m) for m in sorted(modules)}, 'loops': base64.b64encode(data).decode()}, f, indent=1)
        f.write('\n')
    return True
