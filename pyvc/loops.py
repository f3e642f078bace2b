"""Loops by invariants: candidates from the contract's spec machines, pruned until inductive."""
import ast
import os
import z3
from . import source
from .terms import *  # noqa: F401,F403
from .terms import V, Val, SeqVal, Const, SB, SI, SS, Tup, Ref, Dyn, Clo, Bound, Meth, GenV, IterV, Opaque, UnboundV, TAny, TNone, TBool, TInt, TStr, TSpan, TFn, TEnum, TList, TMap, TRec, TObj, TUnion, alts, join_types, subtype, Unsupported, const_id, TRUE, FALSE
from .core import CLS, REGION, I, B, S, PathEnd, Restart, PyExc, H0, SORTS, lit
from .interp import NONE, Env, _Break, _Continue, _Return


DEBUG = int(os.environ.get('PYVC_DEBUG', '0'))


class Info:
    """What is known about one loop across the rounds of a verification."""

    def __init__(self):
        self.fields = {}        # heap key -> set of stable refs written, or None (anything)
        self.types = {}         # local name -> type joined over iterations
        self.varied = set()     # locals changed by an iteration that ends normally
        self.dead = set()       # names of candidates that are not inductive
        self.alive = None

    def shape(self):
        return repr([(k, sorted(map(str, v), key=str) if isinstance(v, (set, list)) else sorted((str(a), str(b) if not isinstance(b, (set, list)) else sorted(map(str, b)))
                                                                                               for a, b in v.items()) if isinstance(v, dict) else str(v))
                     for k, v in sorted(self.__dict__.items()) if k != 'dead'])


class Machine:
    """A spec fold over the iterated sequence, instantiated by a contract.

    init:   list of terms (the state before the first element)
    step:   (it, state, element value, index, seq) -> list of terms
    names:  names of the components
    inv:    optional (it, state at i, i, seq) -> list of formulas true of the fold itself (lemmas proved by the contract)
    """

    def __init__(self, name, over, init, step, names, lemmas=None):
        self.name, self.over, self.init, self.names = name, over, init, names
        if lemmas is not None:
            self.lemmas = lemmas
        if step is not None:
            self.step = step

    def live(self, facts):
        """Of (name, formula) facts named like those of relate(): the formulas that are invariants."""
        return [f for n, f in facts if (self.name, 'relate', n) not in self.info.dead]


def key_of(it, node, env):
    return (node.lineno, node.col_offset, type(node).__name__, tuple(it.stack[-1:]))


def info_of(it, node, env):
    d = it.p.session.loops
    k = key_of(it, node, env)
    if k not in d:
        d[k] = Info()
        if not it.p.session.discovering:
            it.p.session.discovering = True
            it.p.session.pruning = False
            raise Restart()
        it.p.session.changed = True
    return d[k]


def iterate(it, v):
    """(length, element at index, element type, the list object, seq) of something iterable."""
    if isinstance(v, Ref):
        v = it.force_ref(v) if not isinstance(v.typ, (TList, TMap, TRec)) else v
    if isinstance(v, Ref) and isinstance(v.typ, TMap):
        v = IterV('map_keys', it.p.sel(it.p.arr('k'), v.t), v.typ.elem, v)
    if isinstance(v, Ref) and isinstance(v.typ, TList):
        s = it.p.seq(v.t)
        old = it.entry_value(s)
        return z3.Length(s), (lambda i: it.typed(z3.simplify(s[i]), v.typ.elem, old)), s
    if isinstance(v, Opaque):
        n, at = it.w.opaque[v.kind].iterate(it, v)
        return n, at, None
    if isinstance(v, IterV):
        if v.kind == 'opaque_enumerate':
            n, at = it.w.opaque[v.extra.kind].iterate(it, v.extra)
            return n, (lambda i: Tup([it.si(i), at(i)])), None
        if v.kind == 'range':
            lo, hi = v.extra
            return z3.If(hi > lo, hi - lo, 0), (lambda i: it.si(lo + i)), None
        if v.kind in ('enumerate', 'reversed'):
            s = v.seq
            n = z3.Length(s)
            old = it.entry_value(s)
            if v.kind == 'enumerate':
                return n, (lambda i: Tup([it.si(i), it.typed(z3.simplify(s[i]), v.typ, old)])), s
            return n, (lambda i: it.typed(z3.simplify(s[n - 1 - i]), v.typ, old)), s
        if v.kind == 'record_items':
            return record_items(it, v.extra)
        if v.kind.startswith('map_'):
            s, o = v.seq, v.extra
            n = z3.Length(s)
            d, m = it.p.sel(it.p.arr('d'), o.t), it.p.sel(it.p.arr('m'), o.t)

            def at(i):
                k = s[i]
                # every listed key is a key of the dictionary
                it.p.assume(z3.Select(d, k))
                kv = it.ss(k)
                if v.kind == 'map_keys':
                    return kv
                x = it.typed(z3.Select(m, k), v.typ)
                return x if v.kind == 'map_values' else Tup([kv, x])
            return n, at, s
    if isinstance(v, Tup):
        return None, v.items, None
    if isinstance(v, Const) and isinstance(v.py, (tuple, list)):
        return None, [it.live(x) for x in v.py], None
    if isinstance(v, Const) and isinstance(v.py, dict):
        return None, [it.live(x) for x in v.py], None
    raise Unsupported(f'iteration over {v!r}')


RECORD_SIZE = z3.Function('record_size', I, I)


def RECORD_POS(f):
    return z3.Function('record_position_' + f, I, I)


def record_items(it, o):
    """The items of a dictionary with known keys: each present one at its own position, in an order that is not known."""
    p = it.p
    fields = it.w.schemas[o.typ.schema].fields
    has = {f: p.has(f, o.t) for f in fields}
    n = RECORD_SIZE(o.t)
    p.assume(n >= 0)
    for f in fields:
        p.assume(z3.Implies(has[f], z3.And(0 <= RECORD_POS(f)(o.t), RECORD_POS(f)(o.t) < n)))
    p.ghost['record-items'] = o.t
    names = list(fields)

    def at(i):
        if any(not p.has(f, o.t).eq(has[f]) for f in fields):
            raise Unsupported('a dictionary is changed while it is iterated over')
        for f in names[:-1]:
            if p.decide(z3.And(has[f], RECORD_POS(f)(o.t) == i)):
                break
        else:
            f = names[-1]
            p.assume(z3.And(has[f], RECORD_POS(f)(o.t) == i))
        for g in names:
            if g != f:
                p.assume(z3.Implies(has[g], RECORD_POS(g)(o.t) != i))
        return Tup([Const(f), it.getitem(o, Const(f))])
    return n, at, None


# ---------------------------------------------------------------- loop state
class LoopState:
    """Locations a loop may modify: locals and heap cells, with their current terms."""

    def __init__(self, it, env, names, info):
        self.it, self.env, self.names, self.info = it, env, names, info

    def local(self, n):
        e = self.env
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return UnboundV()

    def locations(self):
        """name -> current Val term (None if not a plain value)."""
        out = {}
        for n in self.names:
            v = self.local(n)
            if isinstance(v, (UnboundV, Clo, IterV, GenV)):
                continue
            try:
                if isinstance(v, Ref) and isinstance(v.typ, TList):
                    out[('local-seq', n)] = ('seq', self.it.p.seq(v.t))
                elif isinstance(v, Ref) and isinstance(v.typ, TMap):
                    out[('local-map', n)] = ('map', v.t)
                out[('local', n)] = ('val', self.it.to_val(v))
            except Unsupported:
                pass
        for key, refs in self.info.fields.items():
            for r in sorted(refs or (), key=str):
                n = lit(r)
                if n is not None and n < 0 and n not in self.it.p.allocs:
                    continue        # made on another path
                if key[0] == 'v':
                    out[('cell', key[1], str(r))] = ('val', self.it.p.sel(self.it.p.arr('v', key[1]), r))
                elif key[0] == 's':
                    out[('seqcell', str(r))] = ('seq', self.it.p.seq(r))
                elif key[0] == 'd':
                    out[('mapcell', str(r))] = ('map', r)
        return out


def containers(env):
    """Local lists and dictionaries made by the function itself."""
    seen = set()
    while env is not None:
        for n, v in env.vars.items():
            if n not in seen and isinstance(v, Ref) and isinstance(v.typ, (TList, TMap)) and lit(v.t) is not None and lit(v.t) < 0:
                yield n, v
            seen.add(n)
        env = env.parent


def stores(a, base):
    """Indices stored into array a since base; None if a does not derive from base."""
    out = []
    while not a.eq(base):
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            out.append(a.arg(1))
            a = a.arg(0)
        else:
            return None
    return out


def stable(t, known):
    """Does t only mention symbols known before the loop?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
            if int(x.decl().name().rsplit('!', 1)[1]) > known:
                return False
        todo += x.children()
    n = lit(t)
    if n is not None and n < 0 and -n > known:
        return False
    return True


def run_loop(it, node, env, length, at, seq, body, targets, comp=None, guard=None):
    """The invariant rule. body(i) executes one iteration; guard for while loops.

    comp: name of the hidden accumulator of a comprehension.
    """
    p = it.p
    info = info_of(it, node, env)
    names = sorted(n for n in targets)
    machines = []
    if it.contract is not None:
        machines = it.contract.machines_for(it, seq, length, node, env, guard is not None)
    if it.contract is not None and machines is None:
        raise Unsupported(f'loop at line {node.lineno}: no invariant fits')
    for m in machines:
        m.info = info
    known = p.counter
    pre_heap = dict(p.heap)
    pre_vals = {}
    e = env
    for n in names:
        pre_vals[n] = LoopState(it, env, names, info).local(n)

    discovering = p.session.discovering
    i0 = z3.IntVal(0)
    state = LoopState(it, env, names, info)

    # ---- candidates
    core = {m.name: m.REQUIRED for m in machines if hasattr(m, 'REQUIRED')}

    def candidates(i, ghosts, frame=True):
        out = []
        locs = state.locations()
        for mname, comps in ghosts.items():
            for gname, g in comps.items():
                for lname, (kind, t) in locs.items():
                    cname = (mname, gname) + lname
                    if kind == 'val' and g.sort() == Val:
                        out.append((cname, t == g))
                    elif kind == 'val' and g.sort() == I:
                        out.append((cname, z3.And(Val.is_VInt(t), Val.i(t) == g)))
                        # None as long as the count says so
                    elif kind == 'val' and g.sort() == S:
                        out.append((cname, z3.And(Val.is_VStr(t), Val.s(t) == g)))
                    elif kind == 'val' and g.sort() == B:
                        tr = z3.If(Val.is_VNone(t), FALSE, z3.If(Val.is_VBool(t), Val.b(t), z3.Not(Val.is_VNone(t))))
                        out.append((cname + ('truth',), tr == g))
                    elif kind == 'seq' and g.sort() == SeqVal:
                        out.append((cname, t == g))
                    elif kind == 'map':
                        if g.sort() == z3.ArraySort(S, B):
                            out.append((cname, p.sel(p.arr('d'), t) == g))
                        elif g.sort() == z3.SeqSort(S):
                            out.append((cname, p.sel(p.arr('k'), t) == g))
        for m in machines:
            extra = getattr(m, 'relate', None)
            if extra is not None:
                for cname, f in extra(it, state, locs, ghosts.get(m.name, {}), i):
                    out.append(((m.name, 'relate', cname), f))
        for key, refs in info.fields.items():
            if key[0] == 'h':
                for r in sorted(refs or (), key=str):
                    before = p.sel(pre_heap.get(key, H0(key)), r)
                    out.append((('present', key[1], str(r)), p.sel(p.arr(*key), r) == before))
        if it.contract is not None:
            for cname, f in it.contract.loop_candidates(it, state, locs, i, seq, node):
                out.append((('contract', cname), f))
        out = [(n, f) for n, f in out if n not in info.dead]
        if discovering:
            # guesses would hide some of the code
            out = [(n, f) for n, f in out if n[0] not in core or n[1] == 'relate' and n[2] in core[n[0]]]
        return out

    # ---- initiation
    ghosts0 = {m.name: dict(zip(m.names, m.init)) for m in machines}
    if guard is None and length is not None:
        pass
    failed = False
    for n, f in [] if discovering else candidates(i0, ghosts0):
        if not holds(p, f'loop({"/".join(map(str, n[:3] if n[1] == "relate" else n[:2]))}).init', f):
            info.dead.add(n)
            failed = True
    if failed:
        lost(p)

    # ---- an arbitrary iteration: havoc what the loop modifies
    for n in names:
        v = pre_vals[n]
        t = info.types.get(n)
        if t is None:
            if isinstance(v, UnboundV):
                continue
            t = it.type_of(v)
            if isinstance(v, Ref) and isinstance(t, (TList, TMap)) and t.elem is None:
                info.types[n] = t
                continue
            info.types[n] = t
        cur = state.local(n)
        if not isinstance(v, (UnboundV, Ref)) and t is not None:
            p.prove('loop(types).init', it.tag_fact(it.to_val(v), t))
        if isinstance(cur, Ref) and isinstance(cur.typ, (TList, TMap)) and n not in info.__dict__.setdefault('rebound', set()):
            continue     # the same object throughout; its content is heap state
        if isinstance(v, UnboundV) and n not in info.__dict__.setdefault('bound', set()):
            continue
        if n not in info.varied:
            continue     # no iteration that ends normally changes it
        tv = p.fresh('l_' + n, Val)
        p.bounds[tv.decl().name()] = p.counter
        if t is None or isinstance(t, TAny):
            nv = Dyn(tv, TAny())
        else:
            nv = it.typed(tv, t)
        assign_local(env, n, nv)
    for key in list(info.fields):
        refs = info.fields[key]
        a = p.arr(*key)
        if refs is None:
            p.heap[key] = p.fresh('H_%s_%s' % key, SORTS[key[0]])
            p.bounds[p.heap[key].decl().name()] = p.counter
        else:
            for r in sorted(refs, key=str):
                n = lit(r)
                if n is not None and n < 0 and n not in p.allocs:
                    continue        # made on another path
                c = p.fresh('c_%s_%s' % key, SORTS[key[0]].range())
                p.bounds[c.decl().name()] = p.counter
                a = z3.Store(a, r, c)
            p.heap[key] = a
    p.epoch += 1
    i = p.fresh('i', I)
    p.assume(i >= 0)
    if length is not None:
        p.assume(i <= length)
    ghosts = {}
    for m in machines:
        comps = {}
        for gname, g0 in zip(m.names, m.init):
            comps[gname] = p.fresh(f'g_{m.name}_{gname}', g0.sort())
        ghosts[m.name] = comps
        if getattr(m, 'lemmas', None):
            for f in m.lemmas(it, comps, i, seq, length):
                p.assume(f)
    for _, f in candidates(i, ghosts):
        p.assume(f)
    start_heap = dict(p.heap)
    start_vals = {n: state.local(n) for n in names}
    region_known = p.counter
    elems = info.__dict__.setdefault('elems', {})
    for n, v in containers(env):
        if elems.get(n) is not None:
            v.typ.elem = elems[n] if v.typ.elem is None else join_types(v.typ.elem, elems[n])

    # ---- leave, or run one iteration
    if length is not None:
        going = p.decide(i < length)
    else:
        going = guard()
    if not going:
        for m in machines:
            done = getattr(m, 'done', None)
            if length is not None and done:
                for f in done(it, ghosts[m.name], i, seq, length):
                    p.assume(f)
        return ('exit', i, ghosts)
    try:
        x = at(i) if at is not None else None
        body(i, x)
    except _Continue:
        pass
    except _Break:
        return ('break', i, ghosts)
    # ---- the iteration ended normally: what did it modify?
    changed = False
    for n, v in containers(env):
        if v.typ.elem is not None:
            t = v.typ.elem if elems.get(n) is None else join_types(elems[n], v.typ.elem)
            if t != elems.get(n):
                elems[n] = t
                changed = True
    for n in names:
        now, was = state.local(n), start_vals[n]
        if now is was:
            continue
        if isinstance(now, UnboundV):
            continue
        if n not in info.varied and not isinstance(was, UnboundV):
            info.varied.add(n)
            changed = True
        t = it.type_of(now)
        if isinstance(was, UnboundV) or n not in info.types:
            if n not in info.types or isinstance(was, UnboundV) and n not in info.__dict__.setdefault('bound', set()):
                old = pre_vals[n]
                if not isinstance(old, UnboundV):
                    info.types[n] = join_types(it.type_of(old), t)
                    changed = True
                else:
                    # local to the iteration: unbound or stale afterwards, never read before being set again
                    pass
            continue
        j = t if info.types[n] is None else join_types(info.types[n], t)
        if isinstance(now, Ref) and isinstance(now.typ, (TList, TMap)):
            if not (isinstance(was, Ref) and was.t.eq(now.t)):
                info.__dict__.setdefault('rebound', set()).add(n) if n not in info.__dict__.setdefault('rebound', set()) else None
                changed = changed or n not in info.__dict__.setdefault('rebound_seen', set())
                info.__dict__.setdefault('rebound_seen', set()).add(n)
        if j != info.types[n]:
            info.types[n] = j
            changed = True
        elif not isinstance(now, Ref) and not discovering:
            p.prove('loop(types).preserved', it.tag_fact(it.to_val(now), j))
    for key, a in p.heap.items():
        base = start_heap.get(key)
        if base is None:
            base = H0(key)
        if a.eq(base):
            continue
        idx = stores(a, base)
        if idx is None:
            new = None
        else:
            new = set()
            for r in idx:
                n = lit(r)
                if n is not None and n < 0 and -n > known:
                    continue        # an object made in this iteration
                if stable(r, known):
                    new.add(r)
                else:
                    new = None
                    break
        old = info.fields.get(key, set())
        if new is None:
            if key not in info.fields or info.fields[key] is not None:
                info.fields[key] = None
                changed = True
        elif old is not None:
            extra = [r for r in new if not any(r.eq(o) for o in old)]
            if extra or key not in info.fields:
                if extra or new or key not in info.fields:
                    if extra or key not in info.fields:
                        info.fields[key] = set(old) | set(extra)
                        changed = changed or bool(extra)
    if changed:
        lost(p)
        raise PathEnd()
    if discovering:
        raise PathEnd()
    # ---- the spec machines make their step
    ghosts1 = {}
    for m in machines:
        nxt = m.step(it, ghosts[m.name], x, i, seq)
        ghosts1[m.name] = dict(zip(m.names, nxt))
    for n, f in candidates(i + 1, ghosts1):
        if not holds(p, f'loop({"/".join(map(str, n[:3] if n[1] == "relate" else n[:2]))}).preserved', f):
            info.dead.add(n)
            failed = True
            if DEBUG:
                from .core import discharge
                d = discharge(p.pc, f, 10)
                print("DEAD", n, '\n  ', str(z3.simplify(f))[:600], '\n  ', (d[3] or {}).get('answer'), '\n   '.join(str(z3.simplify(x))[:200].replace('\n',' ') for x in p.pc[-DEBUG:]) if DEBUG > 1 else '')
    if failed:
        lost(p)
    raise PathEnd()


def holds(p, name, f):
    """A candidate invariant: the surviving ones are recorded as obligations of the function."""
    return p.test(f) if p.session.pruning else p.prove(name, f)


def lost(p):
    """More was learned about a loop: what was concluded so far does not count."""
    if p.session.discovering or p.session.pruning:
        p.session.changed = True
    else:
        raise Restart()


def assign_local(env, n, v):
    e = env
    while e is not None:
        if n in e.vars:
            e.vars[n] = v
            return
        e = e.parent
    env.vars[n] = v


def concrete(it, s, env, items):
    for x in items:
        it.assign(s.target, x, env)
        try:
            it.block(s.body, env)
        except _Continue:
            continue
        except _Break:
            return
    it.block(s.orelse, env)


def known_items(it, v):
    """A list whose elements are known one by one is iterated directly."""
    if isinstance(v, Ref) and isinstance(v.typ, TList):
        s = z3.simplify(it.p.seq(v.t))
        out = []

        def walk(s):
            if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT):
                return all(walk(c) for c in s.children())
            if z3.is_app_of(s, z3.Z3_OP_SEQ_UNIT):
                out.append(s.arg(0))
                return True
            if z3.is_app_of(s, z3.Z3_OP_SEQ_EMPTY):
                return True
            return False
        if walk(s):
            return [it.typed(t, v.typ.elem) if v.typ.elem is not None else it.of_val(t, None) for t in out]
    return None


def for_loop(it, s, env):
    v = it.force(it.ev(s.iter, env))
    if isinstance(v, GenV):
        v = list_comp(it, v.node, v.env)
    items = known_items(it, v)
    if items is not None:
        return concrete(it, s, env, items)
    length, at, seq = iterate(it, v)
    if length is None:
        return concrete(it, s, env, at)
    targets = source.assigned_names(s.body) | source.assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])

    def body(i, x):
        it.assign(s.target, x, env)
        it.block(s.body, env)
    how, i, ghosts = run_loop(it, s, env, length, at, seq, body, targets)
    if how == 'exit' and s.orelse:
        it.block(s.orelse, env)


def while_loop(it, s, env):
    targets = source.assigned_names(s.body)

    def guard():
        return it.cond(it.ev(s.test, env))

    def body(i, x):
        it.block(s.body, env)
    how, i, ghosts = run_loop(it, s, env, None, None, None, body, targets, guard=guard)
    if how == 'exit' and s.orelse:
        it.block(s.orelse, env)


# ---------------------------------------------------------------- comprehensions
def list_comp(it, e, env):
    if len(e.generators) != 1 or e.generators[0].is_async:
        raise Unsupported('nested comprehension')
    g = e.generators[0]
    v = it.force(it.ev(g.iter, env))
    if isinstance(v, GenV):
        v = list_comp(it, v.node, v.env)
    inner = Env(env.glob, env)
    acc = it.new_list([], None)
    items = known_items(it, v)
    if items is None:
        length, at, seq = iterate(it, v)
        if length is None:
            items = at
    if items is not None:
        for x in items:
            it.assign(g.target, x, inner)
            if all(it.cond(it.ev(c, inner)) for c in g.ifs):
                it.list_append(acc, it.ev(e.elt, inner))
        return acc
    info = info_of(it, e, env)
    acc_t = info.__dict__.get('acc_type')
    acc.typ = TList(acc_t)
    inner.vars['.acc'] = acc
    targets = source.assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(value=0))])
    start = dict(it.p.heap)

    def body(i, x):
        it.assign(g.target, x, inner)
        for c in g.ifs:
            if not it.cond(it.ev(c, inner)):
                raise _Continue()
        r = it.ev(e.elt, inner)
        t = it.type_of(r)
        if acc.typ.elem is None or not subtype(t, acc.typ.elem):
            info.acc_type = t if acc.typ.elem is None else join_types(acc.typ.elem, t)
            raise Restart()
        it.list_append(acc, r)
    info.fields.setdefault(('s', ''), set())
    if info.fields[('s', '')] is not None and not any(x.eq(acc.t) for x in info.fields[('s', '')]):
        info.fields[('s', '')] = set(info.fields[('s', '')]) | {acc.t}
    # a comprehension with neither filter nor effect keeps the length
    info.comp = (acc, bool(g.ifs))
    how, i, ghosts = run_loop(it, e, inner, length, at, seq, body, targets | {'.acc'}, comp='.acc')
    return acc


def pure_formula(it, fn, what):
    """All paths of an effect-free evaluation, merged: list of (condition, value)."""
    p = it.p
    saved_prefix, saved_pos, saved_todo = p.prefix, p.pos, p.todo
    heap, npc, nallocs, serial = dict(p.heap), len(p.pc), len(p.allocs), p.serial
    trace = list(p.trace)
    out = []
    todo = [[]]
    rounds = 0
    p.nested += 1
    try:
        while todo:
            rounds += 1
            if rounds > 64:
                raise Unsupported(f'{what}: too many cases')
            p.prefix, p.pos, p.todo = list(todo.pop()), 0, todo
            p.heap = dict(heap)
            p.solver.push()
            mark = len(p.pc)
            ghost = dict(p.ghost)
            try:
                v = fn()
                for k, a in p.heap.items():
                    if k in heap and not heap[k].eq(a):
                        raise Unsupported(f'{what} has effects')
                    if k not in heap:
                        if not a.eq(H0(k)):
                            raise Unsupported(f'{what} has effects')
                if len(p.trace) != len(trace):
                    raise Unsupported(f'{what} calls unknown code')
                out.append((list(p.pc[mark:]), v))
            except PathEnd:
                pass
            finally:
                p.solver.pop()
                del p.pc[mark:]
                p.ghost = ghost
    finally:
        p.nested -= 1
        p.prefix, p.pos, p.todo = saved_prefix, saved_pos, saved_todo
        p.heap = heap
        del p.allocs[nallocs:]
        p.serial = serial
    return out


def predicate(it, gen, what):
    """(length, seq/at, P) with P(index term) -> formula 'the element is yielded', at(index)."""
    g = gen.node.generators[0]
    if len(gen.node.generators) != 1:
        raise Unsupported('nested generator')
    v = it.force(it.ev(g.iter, gen.env))
    if isinstance(v, GenV):
        v = list_comp(it, v.node, v.env)
    length, at, seq = iterate(it, v)
    if length is None:
        return None, at, None, g

    def P(k, bind=False):
        def run():
            env = Env(gen.env.glob, gen.env)
            it.assign(g.target, at(k), env)
            for c in g.ifs:
                if not it.cond(it.ev(c, env)):
                    return FALSE
            return TRUE
        cases = pure_formula(it, run, what)
        return cases
    return length, at, P, g


def closed(p, f, j, known):
    """f may be quantified over j: no constant in it was introduced while evaluating it."""
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name() and not x.eq(j):
            tail = x.decl().name().rsplit('!', 1)[1]
            if tail.isdigit() and int(tail) > known:
                raise Unsupported('quantified expression depends on a call result')
        n = lit(x) if z3.is_int(x) else None
        if n is not None and n < 0 and -n > known:
            raise Unsupported('quantified expression allocates')
        todo += x.children()
    return f


def formula(cases, pick):
    """Disjunction over cases of conditions and pick(value); facts assumed on the way are conditions too."""
    return z3.Or([z3.And(*(c + [pick(v)])) for c, v in cases]) if cases else FALSE


def next_of(it, args):
    gen = it.force(args[0])
    p = it.p
    if not isinstance(gen, GenV):
        raise Unsupported('next of something else than a generator expression')
    length, at, P, g = predicate(it, gen, 'generator')
    if length is None:
        for x in at:
            env = Env(gen.env.glob, gen.env)
            it.assign(g.target, x, env)
            if all(it.cond(it.ev(c, env)) for c in g.ifs):
                return it.ev(gen.node.elt, env)
        if len(args) > 1:
            return args[1]
        raise it.exc(StopIteration)
    found = p.choose(2) == 0
    k = p.fresh('first', I)
    j = z3.Const(f'j!q{p.counter}', I)
    jc = quantified(it, P, j)
    # instances of what is assumed for all elements that the solver may not come upon
    points = list(getattr(it.contract, 'instances', lambda it, n: [])(it, length))
    if found:
        p.assume(z3.And(k >= 0, k < length))
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(jc))))
        for t in points + [k - 1]:
            p.assume(z3.Implies(z3.And(t >= 0, t < k), z3.Not(z3.substitute(jc, (j, t)))))
        env = Env(gen.env.glob, gen.env)
        it.assign(g.target, at(k), env)
        for c in g.ifs:
            if not it.cond(it.ev(c, env)):
                raise PathEnd()
        p.ghost[('first', k.get_id())] = k
        return it.ev(gen.node.elt, env)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < length), z3.Not(jc))))
    for t in points:
        p.assume(z3.Implies(z3.And(t >= 0, t < length), z3.Not(z3.substitute(jc, (j, t)))))
    if len(args) > 1:
        return args[1]
    raise it.exc(StopIteration)


def quantified(it, P, j):
    """The element at (bound) index j satisfies the filter: a formula over j only."""
    p = it.p
    npc = len(p.pc)
    known = p.counter
    p.solver.push()
    try:
        cases = P(j)
    finally:
        p.solver.pop()
        del p.pc[npc:]
    # type facts are assumed for every element: they hold for all elements of a typed list
    return closed(p, formula(cases, lambda v: v), j, known)


def all_any(it, which, gen):
    p = it.p
    gen = it.force(gen)
    if not isinstance(gen, GenV):
        raise Unsupported('all/any of something else than a generator expression')
    g = gen.node.generators[0]
    v = it.force(it.ev(g.iter, gen.env))
    length, at, seq = iterate(it, v)
    if length is None:
        for x in at:
            env = Env(gen.env.glob, gen.env)
            it.assign(g.target, x, env)
            if all(it.cond(it.ev(c, env)) for c in g.ifs):
                t = it.cond(it.ev(gen.node.elt, env))
                if t != (which is all):
                    return Const(which is any)
        return Const(which is all)

    def holds(k):
        def run():
            env = Env(gen.env.glob, gen.env)
            it.assign(g.target, at(k), env)
            for c in g.ifs:
                if not it.cond(it.ev(c, env)):
                    return TRUE if which is all else FALSE
            return it.truth(it.ev(gen.node.elt, env))
        return run
    j = z3.Const(f'j!q{p.counter}', I)
    p.counter += 1
    known = p.counter
    jc = closed(p, formula(pure_formula(it, holds(j), 'all/any'), lambda v: v), j, known)
    k = p.fresh('witness', I)
    if p.choose(2) == 0:
        # all of them / none of them
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < length), jc if which is all else z3.Not(jc))))
        return Const(which is all)
    p.assume(z3.And(k >= 0, k < length))
    kc = formula(pure_formula(it, holds(k), 'all/any'), lambda v: v)
    p.assume(z3.Not(kc) if which is all else kc)
    return Const(which is any)
