"""The functions as they are: AST nodes located mechanically from live function objects."""
import ast
import types

_modules = {}


def module_ast(filename):
    if filename not in _modules:
        with open(filename) as f:
            _modules[filename] = ast.parse(f.read(), filename)
    return _modules[filename]


def find(fn):
    """FunctionDef / Lambda node of a live function."""
    code = fn.__code__
    tree = module_ast(code.co_filename)
    hits = []
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            first = min([node.lineno] + [d.lineno for d in getattr(node, 'decorator_list', [])])
            name = getattr(node, 'name', '<lambda>')
            if name == code.co_name and first == code.co_firstlineno:
                hits.append(node)
    if len(hits) != 1:
        return None
    return hits[0]


def cell_env(fn):
    env = {}
    for name, cell in zip(fn.__code__.co_freevars, fn.__closure__ or ()):
        try:
            env[name] = cell.cell_contents
        except ValueError:
            pass
    return env


def is_function(x):
    return isinstance(x, types.FunctionType)


def qualname(fn):
    return f'{fn.__module__}.{fn.__qualname__}'


def unwrap(attr):
    """(function, kind) of a class attribute."""
    if isinstance(attr, staticmethod):
        return attr.__func__, 'static'
    if isinstance(attr, classmethod):
        return attr.__func__, 'class'
    return attr, 'method'


def assigned_names(nodes):
    """Local names (re)bound by statements, not descending into nested scopes."""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in nodes:
        visit(n)
    return out
