"""Paths, heap and obligations of the symbolic executor."""
import ctypes
import multiprocessing as mp
import pickle
import shutil
import subprocess
import tempfile
import time
import os
from collections import deque
import z3
from .terms import *  # noqa: F401,F403
from .terms import V, Val, SeqVal, Unsupported, const_id, TRUE, FALSE

I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
ArrIB, ArrIV, ArrIS = z3.ArraySort(I, B), z3.ArraySort(I, Val), z3.ArraySort(I, SeqVal)
ArrSB, ArrSV = z3.ArraySort(S, B), z3.ArraySort(S, Val)
SeqS = z3.SeqSort(S)
CLS = z3.Function('class_of', I, I)
REGION = z3.Function('region', I, I)


class PathEnd(Exception):
    """This path needs no further exploration (infeasible, or an invariant was re-established)."""


class Restart(Exception):
    """A loop's candidates or modified set changed: verify the function again."""


class PyExc(Exception):
    """An exception of the verified program."""

    def __init__(self, cls, ref, args=()):
        self.cls, self.ref, self.args_v = cls, ref, list(args)
        super().__init__(getattr(cls, '__name__', str(cls)))


SORTS = {'h': ArrIB, 'v': ArrIV, 's': ArrIS, 'd': z3.ArraySort(I, ArrSB), 'm': z3.ArraySort(I, ArrSV), 'k': z3.ArraySort(I, SeqS)}


def H0(key):
    return z3.Const('%s0_%s' % key, SORTS[key[0]])


def lit(t):
    """Python int of a z3 integer literal, or None."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_app_of(t, z3.Z3_OP_UMINUS) and z3.is_int_value(t.arg(0)):
        return -t.arg(0).as_long()
    return None


class Obligation:
    __slots__ = ('name', 'status', 'back_end', 'seconds', 'detail')

    def __init__(self, name, status, back_end, seconds, detail=None):
        self.name, self.status, self.back_end, self.seconds, self.detail = name, status, back_end, seconds, detail

    def as_dict(self):
        d = dict(name=self.name, status=self.status, back_end=self.back_end, seconds=round(self.seconds, 4))
        if self.detail:
            d['detail'] = self.detail
        return d


class Desk:
    """Paths to be run by whoever has nothing to do."""

    def __init__(self, n):
        self.n = n
        self.queue = mp.SimpleQueue()
        self.open, self.idle, self.halt = mp.Value('i', 0), mp.Value('i', 0), mp.Value('i', 0)

    def put(self, prefix):
        with self.open.get_lock():
            self.open.value += 1
        self.queue.put(prefix)

    def get(self):
        with self.idle.get_lock():
            self.idle.value += 1
        job = self.queue.get()
        with self.idle.get_lock():
            self.idle.value -= 1
        return None if self.halt.value else job

    def done(self):
        with self.open.get_lock():
            self.open.value -= 1
            last = self.open.value == 0
        if last:
            self.release()

    def release(self):
        for _ in range(self.n):
            self.queue.put(None)

    def stop(self):
        self.halt.value = 1
        self.release()

    def stopped(self):
        return self.halt.value

    def waiting(self):
        return self.idle.value > 0 and self.queue.empty()


class Session:
    """Verification of one function: explores all its paths, collects obligations."""

    def __init__(self, name, obligation_timeout=10.0, path_limit=4000, time_limit=240):
        self.name = name
        self.obligations = {}       # (decisions, serial) -> Obligation
        self.loops = {}             # loop node id -> loop knowledge (candidates, modified set)
        self.solver_s = 0.0
        self.obligation_timeout = obligation_timeout
        self.path_limit, self.time_limit = path_limit, time_limit
        self.assumed = set()        # contracts and models relied on
        self.paths = 0
        self.ground_checks = False
        self.outcomes = {}
        self.used = set()           # functions inlined or used by contract
        self.feasible_cache = {}
        self.discovering = False    # only finding out what the loops modify
        self.parallel = 1           # processes that share the paths
        self.alone = False
        self.pruning = False        # only finding out which loop candidates are inductive
        self.changed = False
        self.only = None            # parts of the names of the obligations that are asked for (all)

    def explore(self, run):
        """run(path) executes one path to its end."""
        self.start = time.time()
        for round_ in range(200):
            self.obligations, self.paths, self.outcomes, self.feasible_cache = {}, 0, {}, {}
            self.changed = False
            self.reach = 0
            try:
                todo = deque([[]])
                alone, self.alone = self.alone, False
                self.some(run, todo, 4 if self.parallel > 1 and not alone else None)
                if todo:
                    self.together(run, list(todo))
                if self.discovering:
                    self.discovering = self.changed
                    self.pruning = not self.changed
                    continue
                if self.pruning:
                    self.pruning = self.changed
                    continue
                return
            except Restart:
                self.pruning = self.pruning or not self.discovering
                continue
        raise Unsupported(f'{self.name}: loop candidates do not stabilise')

    def some(self, run, todo, enough=None, desk=None):
        """Run the paths, until there are enough left to share."""
        while todo and (enough is None or len(todo) < enough):
            if desk is not None:
                if desk.stopped():
                    return
                while len(todo) > 1 and desk.waiting():
                    desk.put(todo.popleft())
            refuted = 0 if self.discovering or self.pruning else sum(o.status != 'discharged' and (o.detail or {}).get('answer') == 'sat' for o in self.obligations.values())
            late = self.paths > self.path_limit or time.time() - self.start > self.time_limit
            if refuted >= 4 or refuted and late:
                todo.clear()        # what failed does not depend on the other paths
                return
            if late:
                raise Unsupported(f'{self.name}: too many paths ({self.paths})')
            p = Path(self, todo.popleft() if enough else todo.pop(), todo)
            self.paths += 1
            try:
                run(p)
            except PathEnd:
                pass
            except Unsupported:
                if not ((self.discovering or self.pruning) and self.changed):
                    raise

    def together(self, run, todo):
        """The paths left are shared among processes; what they find is put together."""
        desk = Desk(self.parallel)
        for t in todo:
            desk.put(t)
        folder = tempfile.mkdtemp()
        kids = []
        try:
            for k in range(self.parallel):
                pid = os.fork()
                if not pid:
                    code = 1
                    try:
                        ctypes.CDLL(None).prctl(1, 9)       # end with the process that waits
                        self.share(run, desk, os.path.join(folder, str(k)))
                        code = 0
                    finally:
                        if code:
                            desk.stop()
                        os._exit(code)
                kids.append(pid)
            for pid in kids:
                os.waitpid(pid, 0)
            results = []
            for k in range(self.parallel):
                try:
                    with open(os.path.join(folder, str(k)), 'rb') as f:
                        results.append(pickle.load(f))
                except (OSError, EOFError, pickle.UnpicklingError):
                    raise Unsupported('a process that shares the paths died')
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        from . import share
        from .loops import Info
        wrong = [r['error'] for r in results if r['error']]
        restart = False
        for r in results:
            self.obligations.update(r['obligations'])
            for n, k in r['outcomes'].items():
                self.outcomes[n] = self.outcomes.get(n, 0) + k
            self.paths += r['paths']
            self.reach += r['reach']
            self.used |= r['used']
            self.assumed |= r['assumed']
            self.solver_s += r['solver_s']
            self.changed = self.changed or r['changed']
            restart = restart or r['restart']
            if r['loops'] is not None:
                share.merge(self.loops, r['loops'], Info)
            if r['new']:
                self.discovering, self.pruning = True, False
                self.changed = True
            if r['structure'] and r['loops'] is None:
                self.alone = restart = True
            for k, dead in r['dead'].items():
                if k in self.loops:
                    self.loops[k].dead |= dead
            if r.get('messages'):
                self.messages = getattr(self, 'messages', set()) | r['messages']
        if restart:
            raise Restart()
        if wrong and not ((self.pruning or self.discovering) and self.changed):
            raise Unsupported(wrong[0])

    def share(self, run, desk, path):
        self.obligations, self.outcomes, self.paths, self.reach, self.solver_s = {}, {}, 0, 0, 0.0
        before = {k: i.shape() for k, i in self.loops.items()}
        from .terms import _const_objs
        known = len(_const_objs)
        out = dict(error=None, restart=False, structure=False)
        try:
            while True:
                job = desk.get()
                if job is None:
                    break
                self.some(run, deque([job]), desk=desk)
                desk.done()
        except Restart:
            out['restart'] = True
        except Unsupported as e:
            out['error'] = str(e)
        except RecursionError:
            out['error'] = 'recursion'
        except Exception as e:
            out['error'] = f'verifier: {type(e).__name__}: {e}'
        if out['error'] or out['restart']:
            desk.stop()
        from . import share
        out['new'] = set(self.loops) != set(before)
        out['loops'] = share.dump(self.loops, known)
        out['structure'] = {k: i.shape() for k, i in self.loops.items()} != before
        out.update(obligations=self.obligations, outcomes=self.outcomes, paths=self.paths, reach=self.reach, used=self.used, assumed=self.assumed, solver_s=self.solver_s,
                   changed=self.changed, dead={k: set(i.dead) for k, i in self.loops.items()}, messages=set(getattr(self, 'messages', ())))
        with open(path, 'wb') as f:
            pickle.dump(out, f)


_quantified = {}


def quantified(t):
    k = t.get_id()
    r = _quantified.get(k)
    if r is None or not r[0].eq(t):
        r = (t, z3.is_quantifier(t) or any(quantified(c) for c in t.children()))
        _quantified[k] = r
    return r[1]


class Path:
    def __init__(self, session, prefix, todo):
        self.session, self.prefix, self.todo = session, list(prefix), todo
        self.pos = 0
        self.hidden = False         # some facts are not in the solver
        self.heap = {}
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 250)
        self.counter = 0
        self.allocs = []
        self.serial = 0
        self.nonneg = {}            # ast id -> term known to denote an object of the initial heap
        self.region = 0
        self.ghost = {}
        self.trace = []             # calls to opaque functions
        self.nested = 0
        self.epoch = 0              # advances whenever a loop or a call may have changed the heap
        self.map_facts = {}
        self.made = []              # objects constructed here
        self.static = {}            # fresh record literal -> {field: type}
        self.bounds = {}            # name of a forgotten array or local -> counter when it was forgotten: it refers to nothing newer
        self.older = {}             # ast id -> (term, counter): denotes an object made before the counter had that value

    # ------------------------------------------------------------ naming
    def fresh(self, name, sort):
        self.counter += 1
        return z3.Const(f'{name}!{self.counter}', sort)

    # ------------------------------------------------------------ logic
    def assume(self, t):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        if z3.is_true(t):
            return
        self.pc.append(t)
        if not (self.session.ground_checks and quantified(t)):
            self.solver.add(t)
        else:
            self.hidden = True

    def check(self, t):
        """Can t hold here? (unknown counts as yes)"""
        s = time.time()
        r = self.solver.check(t)
        if r == z3.unknown:
            # a solver with no history is often quicker
            once = z3.Solver()
            once.set('timeout', getattr(self.session, 'check_ms', 1500))
            once.add(*[f for f in self.pc if not (self.session.ground_checks and quantified(f))])
            once.add(t)
            r = once.check()
        self.session.solver_s += time.time() - s
        return r != z3.unsat

    def implied(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return not self.check(z3.Not(t))

    def decide(self, cond, note=None):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            self.pos += 1
        else:
            can = self.check(cond)
            cannot = self.check(z3.Not(cond)) if can else True
            if can and cannot:
                self.todo.append(self.prefix + [False])
                choice = True
            else:
                choice = can
                if not can and not self.check(z3.Not(cond)):
                    raise PathEnd()
            self.prefix.append(choice)
            self.pos += 1
        self.assume(cond if choice else z3.Not(cond))
        return choice

    def choose(self, n):
        """A free choice among n alternatives (all are explored)."""
        for k in range(n - 1):
            if self.pos < len(self.prefix):
                choice = self.prefix[self.pos]
                self.pos += 1
            else:
                self.todo.append(self.prefix + [False])
                choice = True
                self.prefix.append(choice)
                self.pos += 1
            if choice:
                return k
        return n - 1

    def prove(self, kind, goal, keep=True):
        """An obligation: goal holds on this path. Returns whether it was discharged."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.session.discovering or self.session.pruning:
            return True
        self.serial += 1
        key = (tuple(self.prefix[:self.pos]), self.serial, self.nested)
        name = f'{self.session.name}:{kind}'
        if keep and self.session.only and 'loop(' not in kind and not any(m in name for m in self.session.only):
            return True         # another property's
        old = self.session.obligations.get(key)
        if old is None:
            status, back, secs, detail = self.quick(goal) or discharge(self.pc, goal, self.session.obligation_timeout)
            self.session.solver_s += secs
            old = Obligation(name, status, back, secs, detail)
            if keep:
                self.session.obligations[key] = old
        return old.status == 'discharged'

    def quick(self, goal, refute=True):
        """Does the solver that has followed the path settle it?"""
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'discharged', 'simplifier', 0.0, None
        s = time.time()
        r = self.solver.check(z3.Not(goal))
        if r == z3.unsat:
            return 'discharged', 'z3', time.time() - s, None
        if r == z3.sat and not refute and not self.hidden:
            return 'failed', 'z3', time.time() - s, None
        return None

    def test(self, goal, timeout=4.0):
        """Is goal provable here (no obligation recorded)?"""
        s = time.time()
        quick = self.quick(goal, False)
        status = quick[0] if quick else discharge(self.pc, goal, timeout, fallback=False)[0]
        self.session.solver_s += time.time() - s
        return status == 'discharged'

    # ------------------------------------------------------------ heap
    def arr(self, kind, name=''):
        key = (kind, name)
        a = self.heap.get(key)
        if a is None:
            a = self.heap[key] = H0(key)
            for n in self.allocs:
                self.virgin(kind, a, n)
        return a

    def virgin(self, kind, a, n):
        """An object allocated here has no fields, no elements and no keys yet."""
        if kind == 'h':
            self.assume(z3.Not(z3.Select(a, n)))
        elif kind == 's':
            self.assume(z3.Select(a, n) == z3.Empty(SeqVal))
        elif kind == 'k':
            self.assume(z3.Select(a, n) == z3.Empty(SeqS))
        elif kind == 'd':
            self.assume(z3.Select(a, n) == z3.K(S, FALSE))

    def distinct(self, a, b):
        la, lb = lit(a), lit(b)
        if la is not None and lb is not None:
            return la != lb
        if la is not None and la < 0 and b.get_id() in self.nonneg:
            return True
        if lb is not None and lb < 0 and a.get_id() in self.nonneg:
            return True
        if la is not None and la < 0 and b.get_id() in self.older and -la > self.older[b.get_id()][1]:
            return True
        if lb is not None and lb < 0 and a.get_id() in self.older and -lb > self.older[a.get_id()][1]:
            return True
        return False

    def aged(self, r, known, under=None):
        """r denotes an object made before the counter was `known` (if the condition holds)."""
        self.older[r.get_id()] = (r, known)
        self.assume(r >= -known if under is None else z3.Implies(under, r >= -known))

    def age(self, r):
        """r was read from a location forgotten earlier: it refers to nothing made since."""
        if r.get_id() in self.older or r.get_id() in self.nonneg or not (z3.is_app(r) and r.num_args() == 1 and r.decl().name() == 'r'):
            return
        x = r.arg(0)
        while z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_SEQ_NTH):
            if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).get_id() in self.older:
                known = self.older[x.arg(1).get_id()][1]
                a = x.arg(0)
                while z3.is_app_of(a, z3.Z3_OP_STORE) and self.no_newer(a.arg(2), known):
                    a = a.arg(0)
                if z3.is_const(a) and a.decl().name()[1:3] == '0_':
                    # never forgotten: what an older object refers to is older
                    return self.aged(r, known)
            x = x.arg(0)
        if z3.is_const(x) and x.decl().name() in self.bounds:
            self.aged(r, self.bounds[x.decl().name()])

    @staticmethod
    def no_newer(t, known):
        """t refers to nothing made after the counter was `known`."""
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == 'VRef':
            n = lit(t.arg(0))
            return n is not None and -n <= known
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR

    def sel(self, a, r):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            i = a.arg(1)
            if i.eq(r):
                return a.arg(2)
            if self.distinct(i, r):
                a = a.arg(0)
                continue
            break
        return z3.Select(a, r)

    def has(self, name, r):
        return self.sel(self.arr('h', name), r)

    def val(self, name, r):
        return self.sel(self.arr('v', name), r)

    def seq(self, r):
        return self.sel(self.arr('s'), r)

    def put(self, kind, name, r, v):
        self.heap[(kind, name)] = z3.Store(self.arr(kind, name), r, v)

    def alloc(self, cls=None):
        self.counter += 1
        n = z3.IntVal(-self.counter)
        self.allocs.append(n)
        for (kind, _), a in list(self.heap.items()):
            self.virgin(kind, a, n)
        if cls is not None:
            self.assume(CLS(n) == const_id(cls))
        self.assume(REGION(n) == 1)
        return n

    def old(self, r):
        """r denotes an object that existed when the function was entered."""
        if r.get_id() not in self.nonneg:
            self.nonneg[r.get_id()] = r
            self.assume(r >= 0)
        return r


CACHE = {}


def discharge(pc, goal, timeout, fallback=True):
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return 'discharged', 'simplifier', 0.0, None
    start = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    secs = time.time() - start
    if r == z3.unsat:
        return 'discharged', 'z3', secs, None
    if r == z3.sat:
        m = s.model()
        text = str(m)
        return 'failed', 'z3', secs, {'goal': str(goal)[:600], 'answer': 'sat', 'model': text[:3000]}
    if fallback:
        r2 = cvc5(s, timeout)
        secs = time.time() - start
        if r2 == 'unsat':
            return 'discharged', 'cvc5', secs, None
        s2 = z3.Solver()
        s2.set('timeout', int(timeout * 2000), 'random_seed', 7)
        s2.set('smt.arith.solver', 2) if False else None
        s2.add(*pc)
        s2.add(z3.Not(goal))
        r3 = s2.check()
        secs = time.time() - start
        if r3 == z3.unsat:
            return 'discharged', 'z3', secs, None
        if r3 == z3.sat:
            return 'failed', 'z3', secs, {'goal': str(goal)[:600], 'answer': 'sat', 'model': str(s2.model())[:3000]}
    return 'failed', 'z3', secs, {'goal': str(goal)[:600], 'answer': 'unknown: ' + s.reason_unknown()}


def cvc5(solver, timeout):
    text = solver.to_smt2()
    if '(lambda' in text or 'seq.map' in text:
        return 'unknown'
    text = '(set-logic ALL)\n' + text
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        out = subprocess.run(['cvc5', '--strings-exp', f'--tlimit={int(timeout * 1000)}', f.name], capture_output=True, text=True, timeout=timeout + 5)
        return out.stdout.strip().splitlines()[0] if out.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)
