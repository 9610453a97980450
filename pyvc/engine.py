"""pyvc: a deductive verifier for Python functions, run on the real code.

The functions of /repo are imported as they are and executed by CPython on
symbolic arguments (z3 terms behind proxies).  Every comparison of symbolic
values splits the proof, so each run of a function under one sequence of
decisions is one verification condition: path condition => postcondition.
Callees under contract are replaced (module globals) by stubs that check the
callee's precondition and return an arbitrary result satisfying its
postcondition.

Loops over symbolic sequences are cut at the loop head.  The proof state
there is (program point and live variables of every active frame, ghost
state of the specification).  All symbols introduced inside the loop are
forgotten except for the entailed facts of the loop's fact vocabulary, so the
set of states met is an inductive invariant: the engine keeps exploring one
arbitrary iteration from every state until no new state appears, and the
code after the loop is verified from every state of the set.  No bound on the
number of iterations is involved.  A state space that does not close within
the budget makes the obligation undischarged, never discharged.
"""
import dis
import os
import subprocess
import sys
import tempfile
import time
from collections import deque
from enum import Enum
from fractions import Fraction
from functools import partial
from types import (BuiltinFunctionType, CodeType, FunctionType,
                   GeneratorType, MethodType, ModuleType)

import z3

z3.z3.Z3_DEBUG = False     # no type checks of z3's own arguments
HERE = os.path.dirname(os.path.abspath(__file__))


class Stop(BaseException):
    """The current path needs no further exploration."""


class Undecided(BaseException):
    """The engine cannot handle the code: the obligation is not discharged."""


class Violated(BaseException):
    """An obligation failed on the current path."""


# ------------------------------------------------------------------ symbols

_simp_cache = {}


def simp(e):
    """z3.simplify, once for a term (terms are shared by z3)."""
    k = e.get_id()
    r = _simp_cache.get(k)
    if r is None:
        r = _simp_cache[k] = e, z3.simplify(e)
    return r[1]


_not_cache = {}


def negated(c):
    k = gid(c)
    r = _not_cache.get(k)
    if r is None:
        r = _not_cache[k] = c, z3.simplify(z3.Not(c))
    return r[1]


_syms_cache = {}


def gid(e):
    """The identity of a term (kept with the Python object)."""
    try:
        return e.pyvc_id
    except AttributeError:
        e.pyvc_id = k = e.get_id()
        return k


def symbols(e):
    """Names of the uninterpreted constants and functions of a term."""
    try:
        return e.pyvc_symbols
    except AttributeError:
        e.pyvc_symbols = r = _symbols(e)
        return r


def _symbols(e):
    k = gid(e)
    r = _syms_cache.get(k)
    if r is not None:
        return r[1]
    out = set()
    todo = [e]
    seen = set()
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    r = frozenset(out)
    _syms_cache[k] = (e, r)
    return r


_nl_cache = {}


def nonlinear(e):
    k = gid(e)
    r = _nl_cache.get(k)
    if r is None:
        r = False
        if z3.is_app(e):
            if e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                r = sum(not z3.is_rational_value(c)
                        and not z3.is_int_value(c) for c in e.children()) > 1
            elif e.decl().kind() in (z3.Z3_OP_DIV,):
                r = True
            r = r or any(nonlinear(c) for c in e.children())
        _nl_cache[k] = (e, r)
        return r
    return r[1]


def consts(e, out, seen):
    i = gid(e)
    if i in seen:
        return
    seen.add(i)
    if z3.is_app(e):
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
        for c in e.children():
            consts(c, out, seen)


# ------------------------------------------------------------------ engine

class Engine:
    def __init__(self, name, timeout=20000, max_paths=200000,
                 budget=600., functions=()):
        self.name, self.timeout = name, timeout
        self.max_paths, self.budget = max_paths, budget
        self.functions = list(functions)
        self.obligations = []     # (label, status, detail)
        self.by_label = {}
        self.paths = self.pruned = self.queries = 0
        self.solver_s = 0.
        self.backends = {}
        self.covers = {}
        self.undecided = []
        self.failures = []
        self._qcache = {}
        self.consts, self._normals = {}, {}
        self._minimals = {}
        self._factcache, self._entcache, self._canon = {}, {}, {}
        self._seen = {}
        self._keep = []
        self.heads = 0
        self.merge_inner = False
        self.minimal = False      # facts implied by others are dropped

    def __pyvc_describe__(self, env):
        return 'engine'

    # --- driving -----------------------------------------------------
    def explore(self, harness):
        global CTL
        t0 = time.time()
        self.worklist = deque([()])
        prev, CTL = CTL, self
        try:
            while self.worklist:
                if (self.paths > self.max_paths
                        or time.time() - t0 > self.budget):
                    self.undecided.append(
                        'state space did not close within the budget '
                        '(%d paths, %.0f s)' % (self.paths,
                                                time.time() - t0))
                    break
                # shortest first: states are met on short paths
                prefix = self.worklist.popleft()
                self._run(harness, prefix)
                if len(self.failures) + len(self.undecided) >= 5:
                    break
        finally:
            CTL = prev
        return self

    def _run(self, harness, prefix):
        self.prefix, self.trace = prefix, []
        self.pc, self.known = [], {}
        self.birth = {}
        self.counter = 0
        self.preds = {}
        self.folds = {}           # length term id -> Fold
        self.fold_run = {}
        self.fold_done = {}
        self.note = {}
        self.headno = 0
        self.seqs = []
        self.ghosts = []          # mutable ghost objects (described)
        self.loops = []           # entries and marks of loops entered
        self.counters = []        # ghost counters kept relative to loops
        self.paths += 1
        try:
            harness(self)
        except Stop:
            pass
        except Violated:
            pass
        except Undecided as e:
            self.undecided.append(str(e))
        except RecursionError as e:
            self.undecided.append('recursion: %s' % e)

    # --- symbols -----------------------------------------------------
    def fresh(self, name, sort):
        self.counter += 1
        n = '%s!%d' % (name, self.counter)
        self.birth[n] = self.counter
        r = self.consts.get(n)
        if r is None or r.sort() != sort:
            r = self.consts[n] = z3.Const(n, sort)
        return r

    def real(self, name):
        return SReal(self.fresh(name, z3.RealSort()))

    def int(self, name):
        return SInt(self.fresh(name, z3.IntSort()))

    def glob(self, name, sort):
        """A constant that belongs to the inputs (never forgotten)."""
        self.birth[name] = 0
        return z3.Const(name, sort)

    def older(self, e, mark):
        """All symbols of the term were introduced before the mark."""
        birth = self.birth
        return all(birth.get(n, 0) <= mark for n in symbols(e))

    # --- path condition ----------------------------------------------
    def assume(self, c):
        if isinstance(c, SBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise Stop
            return
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Stop
        self._keep.append(c)
        self.pc.append(c)
        self.known[gid(c)] = True

    def assume_feasible(self, c):
        self.assume(c)
        if self.check([]) == 'unsat':
            raise Stop

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self._keep.append(c)
        k = self.known.get(gid(c))
        if k is not None:
            return k
        n = negated(c)
        self._keep.append(n)
        if len(self.trace) < len(self.prefix):
            d = self.prefix[len(self.trace)]
        else:
            t, f = self.check([c]), self.check([n])
            if t == 'unsat' and f == 'unsat':
                raise Stop
            if t == 'unsat':
                d = False
            else:
                d = True
                if f != 'unsat':
                    self.worklist.append(tuple(self.trace) + (False,))
        self.trace.append(d)
        x, y = (c, n) if d else (n, c)
        self.pc.append(x)
        self.known[gid(x)] = True
        self.known[gid(y)] = False
        return d

    def predicate(self, name, *points):
        """Opaque truth value of a predicate of points (order matters)."""
        key = (name,) + tuple((gid(t), gid(u)) for t, u in points)
        k = self.preds.get(key)
        if k is None:
            self._keep.extend(x for p in points for x in p)
            k = self.preds[key] = self.fresh(name, z3.BoolSort())
        return k

    def choose(self, options, conds=None):
        """Demonic choice among options (conds: z3 condition of each)."""
        options = list(options)
        if len(self.trace) < len(self.prefix):
            i = self.prefix[len(self.trace)]
        else:
            idx = [i for i in range(len(options))
                   if conds is None or self.check([conds[i]]) != 'unsat']
            if not idx:
                raise Stop
            i = idx[0]
            for j in idx[:0:-1]:
                self.worklist.append(tuple(self.trace) + (j,))
        self.trace.append(i)
        if conds is not None:
            self.assume(conds[i])
        return options[i]

    def _slice(self, extra):
        """Constraints connected with the extra ones (the rest is sat)."""
        want = set()
        for c in extra:
            want |= symbols(c)
        pcs = [(c, symbols(c)) for c in self.pc]
        res, rest = [], pcs
        while True:
            nxt = []
            grew = False
            for c, s in rest:
                if s & want or not s:
                    res.append(c)
                    if not s <= want:
                        want |= s
                        grew = True
                else:
                    nxt.append((c, s))
            rest = nxt
            if not grew:
                return res

    def check(self, extra, want_model=False, timeout=None):
        extra = list(extra)
        cs = self._slice(extra) if extra else list(self.pc)
        cs = cs + extra
        key = frozenset([gid(c) for c in cs])
        r = self._qcache.get(key)
        if r is not None and (not want_model or r == 'unsat'):
            return (r, None) if want_model else r
        self._keep.extend(extra)
        # the same question about other symbols
        alike = self._normal(cs)
        r = self._qcache.get(alike)
        if r is None or want_model and r != 'unsat':
            t0 = time.time()
            r, model = self._solve(cs, timeout or self.timeout)
            self.solver_s += time.time() - t0
            self.queries += 1
            self._qcache[alike] = r
        else:
            model = None
        self._qcache[key] = r
        if want_model:
            return r, model
        return r

    def _normal(self, cs):
        """The formula with its symbols named by their order of birth."""
        names = set()
        for c in cs:
            names |= symbols(c)
        birth, consts = self.birth, self.consts
        names = sorted((birth[n], n) for n in names if birth.get(n, 0))
        sub = []
        for k, (_, n) in enumerate(names):
            x = consts[n]
            y = self._normals.get((k, x.sort().kind()))
            if y is None:
                y = self._normals[k, x.sort().kind()] = z3.Const(
                    'normal%d_%d' % (k, x.sort().kind()), x.sort())
            sub.append((x, y))
        f = z3.And(*cs) if len(cs) != 1 else cs[0]
        if sub:
            f = z3.substitute(f, sub)
        self._keep.append(f)
        return -f.get_id() - 1

    def _solve(self, cs, timeout):
        if any(nonlinear(c) for c in cs):
            solvers = [('z3 nlsat', lambda: z3.SolverFor('QF_NRA')),
                       ('z3', z3.Solver)]
        else:
            solvers = [('z3', z3.Solver)]
        for nm, mk in solvers:
            s = mk()
            s.set('timeout', timeout)
            s.add(cs)
            r = s.check()
            if r == z3.unsat:
                self.backends[nm] = self.backends.get(nm, 0) + 1
                return 'unsat', None
            if r == z3.sat:
                self.backends[nm] = self.backends.get(nm, 0) + 1
                return 'sat', s.model()
        r = self._cvc5(cs, timeout)
        if r != 'unknown':
            self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
        return r, None

    def _cvc5(self, cs, timeout):
        s = z3.Solver()
        s.add(cs)
        text = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--lang=smt2',
                                '-q'], input=text, capture_output=True,
                               text=True, timeout=timeout / 1000 + 5)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
            return o if o in ('sat', 'unsat') else 'unknown'
        except (OSError, subprocess.TimeoutExpired):
            return 'unknown'

    # --- obligations --------------------------------------------------
    def _record(self, label, status, detail=None):
        d = self.by_label.setdefault(label, {'discharged': 0, 'failed': 0,
                                             'undecided': 0})
        d[status] += 1
        if status != 'discharged':
            self.failures.append({'label': label, 'status': status,
                                  'detail': detail or '',
                                  'trace': [str(x) for x in self.trace],
                                  'note': {k: str(v) for k, v
                                           in self.note.items()},
                                  'path': [str(c) for c in self.pc][-40:]})
            raise Violated

    def prove(self, cond, label, detail=None):
        """An obligation: the condition follows from the path condition."""
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, bool):
            self._record(label, 'discharged' if cond else 'failed', detail)
            return
        n = simp(z3.Not(cond))
        if z3.is_false(n):
            self._record(label, 'discharged')
            return
        r, model = self.check([n], want_model=True)
        if r == 'unsat':
            self._record(label, 'discharged')
        elif r == 'sat':
            self._record(label, 'failed', '%s; counter-model: %s' % (
                detail or '', str(model)[:2000]))
        else:
            self._record(label, 'undecided', '%s; solvers answered unknown'
                         % (detail or ''))

    def cover(self, label):
        """Reachability: this point must be reached on some path."""
        self.covers[label] = self.covers.get(label, 0) + 1

    # --- loop heads ----------------------------------------------------
    def loop_head(self, tag, mark, state, ghost, facts):
        """Cut the proof here.

        tag    identifies the loop instance (with the entry trace),
        mark   symbols introduced later than this are loop symbols,
        state  extra values that belong to the state (described),
        ghost  hashable ghost state or an object with symbolic values,
        facts  callable: live terms -> list of candidate facts (z3).
        """
        if len(self.trace) < len(self.prefix):
            replay = True
        else:
            replay = False
        self.heads += 1
        self.headno += 1
        for g in self.ghosts:
            hook = getattr(g, 'at_head', None)
            if hook is not None:
                hook()
        at = (tag, tuple(self.trace), self.headno)
        if replay:
            had = self._factcache.get(at)
            if had is not None:     # the same run up to here
                self.pc, self.known = list(had[0]), dict(had[1])
                return
        env = Env(self, mark)
        key = [tag, env.describe(ghost), env.describe(state),
               env.describe(self.ghosts),
               env.describe([self.fold_run.get(k) for k in self.folds]),
               env.describe([self.fold_done.get(k) for k in self.folds])]
        f, inner = sys._getframe(2), sys._getframe(1)
        while f is not None and f.f_code is not CALL_CODE:
            fn = f.f_code.co_filename
            if not fn.startswith(HERE) or f.f_code.co_name in VISIBLE:
                op = opname_at(f.f_code, f.f_lasti)
                if (not fn.startswith(HERE) and op not in ('FOR_ITER', 'SEND', 'CONTAINS_OP')
                        and (inner.f_code.co_flags & 0x20
                             or inner.f_code is SITER_NEXT)):
                    raise Undecided('a symbolic sequence is consumed by '
                                    'machine code in %s (%s)' % (
                                        f.f_code.co_name, op))
                live = live_names(f.f_code, f.f_lasti)
                loc = f.f_locals
                if accumulates(f.f_code, f.f_lasti):
                    raise Undecided('a comprehension over a symbolic '
                                    'sequence in %s' % f.f_code.co_name)
                key.append((f.f_code.co_name, f.f_code.co_firstlineno,
                            f.f_lasti,
                            tuple((n, env.describe(loc[n]))
                                  for n in sorted(live) if n in loc)))
            f, inner = f.f_back, f
        cands = [c for c in facts(env.terms)
                 if c is not None and not self.older(c, mark)]
        k = (tuple([gid(c) for c in self.pc]),
             tuple([gid(c) for c in cands]))
        ent = self._entcache.get(k)
        if ent is None:
            self._keep.extend(cands)
            ent = self._entcache[k] = tuple([self._entailed(c)
                                             for c in cands])
        pure = [c for c in self.pc if self.older(c, mark)]
        if self.minimal:
            pure = self._minimal(pure)
        kept = [c for c, t in zip(cands, ent) if t]
        key.append(ent)
        key.append(tuple(env.canonical(pure)))
        key = tuple(key)
        self._keep.extend(kept)
        if not replay:
            if key in self._seen:
                self.pruned += 1
                raise Stop
            self._seen[key] = True
        self.pc = []
        self.known = {}
        for c in pure + kept:
            c = simp(c)
            if not z3.is_true(c) and gid(c) not in self.known:
                self._keep.append(c)
                self.pc.append(c)
                self.known[gid(c)] = True
        self._factcache[at] = tuple(self.pc), dict(self.known)

    def _minimal(self, cs):
        k = tuple(sorted(gid(c) for c in cs))
        r = self._minimals.get(k)
        if r is None:
            self._keep.extend(cs)
            r = sorted(set(cs), key=lambda c: (len(c.sexpr()), c.sexpr()),
                       reverse=True)
            pc, n = self.pc, 0
            while n < len(r):
                self.pc = r[:n] + r[n + 1:]
                if self._entailed(r[n]):
                    del r[n]
                else:
                    n += 1
            self.pc = pc
            self._minimals[k] = r
        return r

    def _entailed(self, c):
        n = negated(c)
        if z3.is_false(n):
            return True
        if z3.is_true(n):
            return False
        return self.check([n]) == 'unsat'

    # --- calling the target --------------------------------------------
    def call(self, fn, *args, **kwargs):
        return fn(*args, **kwargs)

    def outcome(self, fn, *args, **kwargs):
        """('return', value) or ('raise', exception)."""
        try:
            return 'return', self.call(fn, *args, **kwargs)
        except (Stop, Undecided, Violated):
            raise
        except Exception as e:
            return 'raise', e

    # --- result ----------------------------------------------------------
    def summary(self):
        n = sum(sum(v.values()) for v in self.by_label.values())
        d = sum(v['discharged'] for v in self.by_label.values())
        return {'group': self.name, 'functions': self.functions,
                'obligations': len(self.by_label),
                'vcs': n, 'vcs_discharged': d,
                'labels': self.by_label, 'failures': self.failures,
                'undecided': self.undecided, 'paths': self.paths,
                'pruned': self.pruned, 'loop_heads': self.heads,
                'loop_states': len(self._seen), 'queries': self.queries,
                'solver_s': round(self.solver_s, 3),
                'backends': self.backends, 'covers': self.covers}


CTL = None
CALL_CODE = Engine.call.__code__
VISIBLE = {'py_sum', 'py_min', 'py_max', 'py_all', 'py_any', 'gen_enumerate',
           'gen_zip', 'gen_chain', 'consume'}


def ctl():
    return CTL


# ------------------------------------------------------------ description

class Env:
    """Describes values up to renaming of the symbols met inside loops."""

    def __init__(self, c, mark):
        self.c, self.mark, self.terms, self.ids = c, mark, [], {}

    def describe(self, v):
        if v is None or isinstance(v, (bool, int, str, bytes, float,
                                       Fraction)):
            return v
        if isinstance(v, Enum):
            return (type(v).__name__, v.name)
        if isinstance(v, (SReal, SInt, SBool)):
            self.terms.append(v.e)
            return ('t', len(self.terms) - 1)
        if isinstance(v, z3.ExprRef):
            self.terms.append(v)
            return ('t', len(self.terms) - 1)
        d = getattr(v, '__pyvc_describe__', None)
        if d is not None and not isinstance(v, type):
            return d(self)
        if isinstance(v, (FunctionType, BuiltinFunctionType, type,
                          ModuleType, CodeType)):
            return ('f', getattr(v, '__module__', ''),
                    getattr(v, '__qualname__', repr(v)))
        if id(v) in self.ids:
            return ('ref', self.ids[id(v)])
        self.ids[id(v)] = len(self.ids)
        if isinstance(v, (tuple, list)):
            return (type(v).__name__,) + tuple(self.describe(x) for x in v)
        if isinstance(v, frozenset):
            return ('fs', tuple(sorted(map(repr, (self.describe(x)
                                                  for x in v)))))
        if isinstance(v, set):
            return ('set',) + tuple(self.describe(x) for x in v)
        if isinstance(v, dict):
            return ('dict',) + tuple((self.describe(k), self.describe(x))
                                     for k, x in v.items())
        if isinstance(v, MethodType):
            return ('m', v.__func__.__qualname__, self.describe(v.__self__))
        if isinstance(v, partial):
            return ('p', self.describe(v.func), self.describe(v.args),
                    self.describe(v.keywords))
        if isinstance(v, GeneratorType):
            f = v.gi_frame
            if f is None:
                return ('gen-done', v.gi_code.co_name)
            live = live_names(f.f_code, f.f_lasti)
            loc = f.f_locals
            return ('gen', v.gi_code.co_name, v.gi_code.co_firstlineno,
                    f.f_lasti, tuple((n, self.describe(loc[n]))
                                     for n in sorted(live) if n in loc))
        m = type(v).__module__
        if m.startswith('ground') or m.startswith('orient'):
            names = []
            for k in type(v).__mro__:
                s = k.__dict__.get('__slots__', ())
                names += [s] if isinstance(s, str) else list(s)
            names += sorted(getattr(v, '__dict__', {}))
            return (type(v).__name__,) + tuple(
                (n, self.describe(getattr(v, n))) for n in names
                if hasattr(v, n))
        if type(v).__name__ in ('zip', 'enumerate', 'chain', 'map',
                                'range_iterator', 'list_iterator',
                                'tuple_iterator', 'cell', 'range'):
            try:
                return (type(v).__name__, self.describe(v.__reduce__()[1:]))
            except Exception:
                pass
        raise Undecided('a live value at a loop head cannot be described: '
                        '%s' % type(v))

    def canonical(self, pure):
        c = self.c
        k = (tuple([gid(t) for t in pure]),
             tuple([gid(t) for t in self.terms]), self.mark,
             tuple([m for _, m in c.loops]) if c.merge_inner else ())
        # births are in the names of symbols
        r = c._canon.get(k)
        if r is None:
            c._keep.extend(self.terms)
            r = c._canon[k] = self._canonical(pure)
        return r

    def _canonical(self, pure):
        cs = []
        seen = set()
        for t in self.terms:
            consts(t, cs, seen)
        c, mark = self.c, self.mark
        marks = [m for _, m in c.loops]
        if c.merge_inner and marks:
            for t in pure:
                consts(t, cs, seen)
            mark = min(mark, marks[0])
        sub = []
        for x in cs:
            b = c.birth.get(x.decl().name(), 0)
            if b > mark:
                # which of the loops forget it
                k = sum(b > m for m in marks) if c.merge_inner else ''
                sub.append((x, z3.Const('e%s_%d' % (k, len(sub)), x.sort())))

        def text(t):
            return simp(z3.substitute(t, sub) if sub else t).sexpr()
        return sorted(map(text, pure)) + ['|'] + [text(t)
                                                  for t in self.terms]


def accumulates(code, lasti):
    """The instruction drives an inlined list/set/dict comprehension."""
    t = _acc_cache.get(code)
    if t is None:
        t = _acc_cache[code] = set()
        ins = list(dis.get_instructions(code))
        for n, i in enumerate(ins):
            if i.opname in ('LIST_APPEND', 'SET_ADD', 'MAP_ADD'):
                # the innermost FOR_ITER before whose loop contains it
                for m in range(n, -1, -1):
                    if (ins[m].opname == 'FOR_ITER'
                            and ins[m].argval > i.offset):
                        t.add(ins[m].offset)
                        break
    return opname_at(code, lasti) == 'FOR_ITER' and lasti in t


def opname_at(code, lasti):
    t = _op_cache.get(code)
    if t is None:
        ins = list(dis.get_instructions(code))
        t = _op_cache[code] = spread(code, ins, [i.opname for i in ins])
    return t[lasti]


def spread(code, ins, values):
    """Values of instructions at all their code units (inline caches)."""
    res = {}
    ends = [i.offset for i in ins[1:]] + [len(code.co_code)]
    for i, end, v in zip(ins, ends, values):
        for o in range(i.offset, end, 2):
            res[o] = v
    return res


_acc_cache = {}
_op_cache = {}
_live_cache = {}


def live_names(code, lasti):
    """Names of the variables that may be read after the instruction."""
    t = _live_cache.get(code)
    if t is None:
        t = _live_cache[code] = _liveness(code)
    return t[lasti]


def _liveness(code):
    ins = [i for i in dis.get_instructions(code)]
    off = {i.offset: n for n, i in enumerate(ins)}
    handlers = []
    try:
        for e in dis._parse_exception_table(code):
            handlers.append((e.start, e.end, e.target))
    except Exception:
        pass
    succ, use, dfn = [], [], []
    always = set(code.co_cellvars) | set(code.co_freevars)
    for n, i in enumerate(ins):
        s = []
        op = i.opname
        if op not in ('RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS',
                      'RERAISE', 'JUMP_FORWARD', 'JUMP_BACKWARD',
                      'JUMP_BACKWARD_NO_INTERRUPT'):
            if n + 1 < len(ins):
                s.append(n + 1)
        if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            s.append(off[i.argval])
        for a, b, t in handlers:
            if a <= i.offset < b and t in off:
                s.append(off[t])
        succ.append(s)
        u, d = set(), set()
        if op in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR',
                  'DELETE_FAST'):
            u.add(i.argval)
        elif op == 'STORE_FAST':
            d.add(i.argval)
        elif op in ('LOAD_DEREF', 'LOAD_CLOSURE'):
            u.add(i.argval)
        use.append(u)
        dfn.append(d)
    live_in = [set() for _ in ins]
    ch = True
    while ch:
        ch = False
        for n in range(len(ins) - 1, -1, -1):
            out = set()
            for s in succ[n]:
                out |= live_in[s]
            new = use[n] | (out - dfn[n])
            if new != live_in[n]:
                live_in[n] = new
                ch = True
    outs = []
    for n, i in enumerate(ins):
        out = set()
        for s in succ[n]:
            out |= live_in[s]
        outs.append(out | always)
    res = spread(code, ins, outs)
    res[-1] = live_in[0] | always
    return res


# ----------------------------------------------------------------- proxies

def lift(v):
    if isinstance(v, (SReal, SInt)):
        return v.e
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        v = Fraction(v)
    n = getattr(v, 'numerator', None)
    if n is not None:
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
    return None


def _coerce(a, b):
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        if b.sort() == z3.IntSort():
            b = z3.ToReal(b)
    return a, b


class SNum:
    __slots__ = ('e',)

    def __init__(self, e):
        object.__setattr__(self, 'e', e)

    def __setattr__(self, k, v):
        raise AttributeError('scalars are immutable')

    def _bin(self, o, f, swap=False):
        b = lift(o)
        if b is None:
            return NotImplemented
        a, b = _coerce(self.e, b)
        r = f(b, a) if swap else f(a, b)
        r = simp(r)
        if isinstance(r, z3.BoolRef):
            return CTL.branch(r)
        return (SInt if r.sort() == z3.IntSort() else SReal)(r)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _div(self.e, b)

    def __rtruediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _div(b, self.e)

    def __neg__(self): return type(self)(simp(-self.e))
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b)
    def __bool__(self): return CTL.branch(self.e != 0)
    def __hash__(self): return 7
    def __repr__(self): return str(self.e)

    def __pow__(self, k):
        if k == 2:
            return self * self
        return NotImplemented


def _div(a, b):
    a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
    b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
    if CTL.branch(b == 0):
        raise ZeroDivisionError
    # an explicit quotient: keeps queries polynomial
    q = CTL.fresh('quot', z3.RealSort())
    CTL.assume(q * b == a)
    return SReal(q)


class SReal(SNum):
    __slots__ = ()


class SInt(SNum):
    __slots__ = ()

    def __mod__(self, o):
        b = lift(o)
        if CTL.branch(b == 0):
            raise ZeroDivisionError
        # Python's modulus; resolved by cases for operands near the range
        if CTL.branch(z3.And(b > 0, self.e >= 0, self.e < b)):
            return self
        if CTL.branch(z3.And(b > 0, self.e >= b, self.e < 2 * b)):
            return SInt(simp(self.e - b))
        if CTL.branch(z3.And(b > 0, self.e < 0, self.e >= -b)):
            return SInt(simp(self.e + b))
        r = CTL.fresh('mod', z3.IntSort())
        q = CTL.fresh('div', z3.IntSort())
        CTL.assume(z3.And(self.e == q * b + r,
                          z3.Or(z3.And(b > 0, r >= 0, r < b),
                                z3.And(b < 0, r <= 0, r > b))))
        return SInt(r)

    def __rmod__(self, o):
        return SInt(lift(o)).__mod__(self)

    def __floordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        if CTL.branch(b == 0):
            raise ZeroDivisionError
        r = CTL.fresh('mod', z3.IntSort())
        q = CTL.fresh('div', z3.IntSort())
        CTL.assume(z3.And(self.e == q * b + r,
                          z3.Or(z3.And(b > 0, r >= 0, r < b),
                                z3.And(b < 0, r <= 0, r > b))))
        return SInt(q)

    def __index__(self):
        raise Undecided('a symbolic integer is used as a machine index')


class SBool:
    """Only for specifications; the code under test sees real booleans."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTL.branch(self.e)


def term(v):
    """z3 term of a specification operand."""
    return lift(v)


# -------------------------------------------------------------- sequences

class SIter:
    """Iterator over the positions of a symbolic sequence.

    Every request for the next element is a loop head.  `seqs` are the
    vertex-like sequences whose elements at p-1, p-2 stay known (a window).
    """

    def __init__(self, seq):
        self.seq = seq
        self.pos = z3.IntVal(0)
        self.entry = None
        self.done = False
        self.windows = [q for q in seq.bases()]
        self.fold = CTL.folds.get(gid(seq.n))

    def __iter__(self):
        return self

    def __pyvc_describe__(self, env):
        env.terms.append(self.pos)
        return ('SIter', self.seq.name, self.done, len(env.terms))

    def __next__(self):
        c = CTL
        if self.done:
            raise StopIteration
        seq = self.seq
        if self.entry is None:
            self.entry, self.mark = tuple(c.trace), c.counter
            if c.merge_inner and c.loops:
                self.entry = c.loops[0][0], len(c.loops)
            # a loop entered from one described state, however reached
            self.entry = getattr(seq, 'entry', None) or self.entry
            self.level = len(c.loops)
            c.loops.append((self.entry, self.mark))
            if self.fold is not None:
                c.fold_run[gid(seq.n)] = self.fold.init
            start = getattr(seq.ghost, 'start', None)
            if start is not None:
                start()
        if getattr(seq.ghost, 'collects', False):
            gather(self, seq.ghost)
        before = getattr(seq.ghost, 'before', None)
        if before is not None:
            before()
        p = c.fresh('p_' + seq.name, z3.IntSort())
        c.assume(p == self.pos)
        self.pos = p
        win = [(q, q.window(p, self.mark)) for q in self.windows]
        for k in c.counters:
            if symbols(k.e) and c.older(k.e, self.mark):
                continue        # counts the steps of an outer loop
            for d in (0, 1, -1):
                if c._entailed(k.e == p + d):
                    k.e = simp(p + d)
                    break
        c.loop_head((seq.name, self.entry), self.mark,
                    (p, [w for _, w in win], [k.e for k in c.counters]),
                    seq.ghost,
                    lambda terms: self._facts(terms, p))
        for q, w in win:
            q.rewindow(p, w, self.mark)
        for q in c.seqs:
            if q not in self.windows:
                q.rewindow(p, [], self.mark)
        if not c.branch(p < seq.n):
            self.done = True
            if c.minimal:
                at = p.decl().name()
                c.pc = [f for f in c.pc if at not in symbols(f)]
            if c.loops and c.loops[-1] == (self.entry, self.mark):
                c.loops.pop()
            if self.fold is not None:
                k = gid(seq.n)
                if c.fold_done.setdefault(k, c.fold_run[k]) != c.fold_run[k]:
                    raise Stop      # the same fold over the same sequence
            raise StopIteration
        for m in seq.marks:
            c.branch(p == m)
        v = seq.at(p)
        if self.fold is not None:
            k = gid(seq.n)
            c.fold_run[k] = self.fold.step(c.fold_run[k], seq.base_pos(p))
        if seq.ghost is not None:
            seq.ghost.step(p, v)
        self.pos = simp(p + 1)
        return v

    def _facts(self, terms, p):
        n = self.seq.n
        if any(q.lean for q in CTL.seqs):
            fs = [p >= 0, p <= n]
            for m in self.seq.marks:
                fs += [p > m, p <= m]
            if self.seq.vocab is not None:
                fs += self.seq.vocab(terms, p)
            return fs
        fs = [p == 0, p >= 0, p >= 1, p >= 2, p <= n, p < n, p == n]
        if self.windows and self.seq.marks:
            fs += [p == 1, p == 2, p >= 3]
        for m in self.seq.marks:
            fs += [p > m, p <= m]
        for t in terms:
            if (t.sort() == z3.IntSort() and gid(t) != gid(p)
                    and not CTL.older(t, self.mark)):
                fs += [t == p, t == p - 1, t < p, t < p - 1, t == p - 2, t >= 0, t >= 1,
                       t < n]
        if self.seq.vocab is not None:
            fs += self.seq.vocab(terms, p)
        return fs


SITER_NEXT = SIter.__next__.__code__


class Picks:
    """Stands in a list for the elements (or their positions) of a
    sequence that were picked so far, one or more, in order."""
    __slots__ = ('count', 'of')

    def __init__(self, count, of):
        self.count, self.of = count, of

    def __pyvc_describe__(self, env):
        env.terms.append(self.count)
        return ('picks', self.of, len(env.terms))


def gather(it, ghost):
    """Lists that grew by an element of the sequence in the last iteration
    are summed up, so that they have one form at every loop head."""
    f = sys._getframe(2)
    while f is not None and f.f_code is not CALL_CODE:
        if not f.f_code.co_filename.startswith(HERE):
            for v in f.f_locals.values():
                if type(v) is not list or not v:
                    continue
                old = v[0].count if isinstance(v[0], Picks) else None
                new = v[1:] if old is not None else v
                if not new or not all(isinstance(x, SInt)
                                      or x is ghost.cur
                                      for x in new):
                    continue
                cur = simp(it.pos - 1)
                for x in new:
                    if isinstance(x, SInt) and not CTL._entailed(
                            x.e == cur):
                        raise Undecided('a list of other positions')
                if len(new) > 1:
                    raise Undecided('a position is put on a list twice')
                of = ('positions' if isinstance(new[0], SInt)
                      else ghost.name)
                if old is not None and v[0].of != of:
                    raise Undecided('a list of positions and elements')
                count = CTL.fresh('count', z3.IntSort())
                CTL.assume(count == (1 if old is None else old + 1))
                v[:] = [Picks(count, of)]
                ghost.picked(v)
        f = f.f_back


class Counter:
    """Ghost counter of the specification."""

    def __init__(self):
        self.e = z3.IntVal(0)
        CTL.counters.append(self)

    def __pyvc_describe__(self, env):
        return 'counter'


class Fold:
    """Specification value of a sequence: fold of step over all positions.

    The steps must commute: the value then does not depend on the order.
    """

    def __init__(self, init, step):
        self.init, self.step = init, step


class ISeq:
    """Symbolic sequence given by a length term and an element function."""
    ghost = None
    marks = ()
    vocab = None
    lean = False        # only facts about the marks are kept

    def __init__(self, name, n, at, ghost=None, marks=(), vocab=None,
                 base=()):
        self.name, self.n, self._at = name, n, at
        self.ghost, self.marks, self.vocab = ghost, tuple(marks), vocab
        self._base = tuple(base)

    def at(self, p):
        return self._at(p)

    def base_pos(self, p):
        """Position in the underlying sequence (for folds)."""
        return p

    def bases(self):
        return self._base

    def __iter__(self):
        return SIter(self)

    def __bool__(self):
        return CTL.branch(self.n > 0)

    def __pyvc_len__(self):
        return SInt(simp(self.n))

    def __len__(self):
        raise Undecided('machine length of a symbolic sequence')

    def __pyvc_describe__(self, env):
        return ('seq', self.name)

    def _index(self, i):
        t = lift(i)
        if t is None:
            raise TypeError('index')
        if isinstance(i, int):
            t = simp(self.n + i) if i < 0 else t
        elif CTL.branch(t < 0):
            t = simp(t + self.n)
        if not CTL.branch(z3.And(t >= 0, t < self.n)):
            raise IndexError('symbolic sequence index out of range')
        return t

    def __getitem__(self, i):
        if isinstance(i, slice):
            return _slice_of(self, i)
        if isinstance(i, Picks):
            return Picks(i.count, self.name)
        return self.at(self._index(i))


class SSeq(ISeq):
    """Sequence of unknown elements; equal positions give equal elements."""

    def __init__(self, name, n, make, ghost=None, marks=(), vocab=None,
                 windowed=True):
        ISeq.__init__(self, name, n, None, ghost, marks, vocab)
        self.make, self.entries, self.windowed = make, [], windowed
        CTL.seqs.append(self)

    def bases(self):
        return (self,) if self.windowed else ()

    def at(self, p):
        p = simp(p)
        for t, v in self.entries:
            if CTL.branch(t == p):
                return v
        v = self.make(p)
        self.entries.append((p, v))
        return v

    def window(self, p, mark):
        """Elements known at p-1 and p-2 before the loop facts go."""
        res = []
        for k in (1, 2):
            for t, v in self.entries:
                if CTL._entailed(t == p - k):
                    res.append((k, v))
                    break
        return res

    def rewindow(self, p, win, mark):
        keep = [(t, v) for t, v in self.entries if CTL.older(t, mark)]
        have = [id(v) for _, v in keep]
        self.entries = keep + [(simp(p - k), v) for k, v in win
                               if id(v) not in have]

    def index(self, x, *args):
        """list.index: some first position of an equal element."""
        k = CTL.fresh('idx_' + self.name, z3.IntSort())
        if CTL.choose((True, False)):
            CTL.assume(z3.And(k >= 0, k < self.n))
            v = self.at(k)
            if not v == x:
                raise Stop
            self.found = k
            return SInt(k)
        self.absent = getattr(self, 'absent', []) + [x]
        raise ValueError('not in list')


def _slice_of(seq, s):
    n = seq.n

    def bound(v, default):
        if v is None:
            return default
        t = lift(v)
        if CTL.branch(t < 0):
            t = simp(t + n)
            if CTL.branch(t < 0):
                t = z3.IntVal(0)
        if CTL.branch(t > n):
            t = n
        return t
    if s.step in (None, 1):
        a, b = bound(s.start, z3.IntVal(0)), bound(s.stop, n)
        m = simp(b - a) if CTL.branch(b > a) else z3.IntVal(0)
        return ISeq(seq.name + '_s', m, lambda p: seq.at(simp(p + a)),
                    base=seq.bases())
    if s.step == -1 and s.start is None and s.stop is None:
        return ISeq(seq.name + '_r', n,
                    lambda p: seq.at(simp(n - 1 - p)),
                    base=seq.bases())
    raise Undecided('slice of a symbolic sequence')


# ------------------------------------------------- symbolic-aware builtins

def as_iseq(x):
    if isinstance(x, ISeq):
        return x
    if isinstance(x, SIter) and x.entry is None:
        return x.seq
    return None


def py_len(x):
    f = getattr(x, '__pyvc_len__', None)
    if type(x) is list and x and isinstance(x[0], Picks):
        return SInt(simp(x[0].count + (len(x) - 1)))
    return len(x) if f is None else f()


def py_range(*args):
    if all(type(a) is int for a in args):
        return range(*args)
    start, stop, step = ((0, args[0], 1) if len(args) == 1
                         else (args[0], args[1], 1) if len(args) == 2
                         else args)
    a, b = lift(start), lift(stop)
    if isinstance(step, SInt):
        e = simp(step.e)
        if z3.is_int_value(e):
            step = e.as_long()
    if step == 1:
        n = simp(b - a) if CTL.branch(b > a) else z3.IntVal(0)
    elif step == -1:
        n = simp(a - b) if CTL.branch(a > b) else z3.IntVal(0)
    else:
        raise Undecided('range with a step')
    def vocab(terms, p):
        at = simp(a + step * p)
        return [f for q in CTL.seqs if not q.windowed for m in q.marks
                for f in (at > m, at <= m)]
    return ISeq('range', n, lambda p: SInt(simp(a + step * p)),
                vocab=vocab)


def py_enumerate(it, start=0):
    s = as_iseq(it)
    if s is None:
        return gen_enumerate(it, start)
    st = lift(start)
    r = ISeq('enum_' + s.name, s.n,
             lambda p: (SInt(simp(p + st)), s.at(p)), None, s.marks,
             s.vocab, s.bases())
    if s.ghost is not None:
        r.ghost = _GhostSecond(s.ghost)
    return r


class _GhostSecond:
    def __init__(self, g):
        self.g = g

    def __getattr__(self, k):
        return getattr(self.g, k)

    def step(self, p, v):
        self.g.step(p, v[1])

    def __pyvc_describe__(self, env):
        return env.describe(self.g)


def py_zip(*its):
    ss = [as_iseq(i) for i in its]
    if all(s is None for s in ss):
        return gen_zip(*its)
    if any(s is None for s in ss):
        raise Undecided('zip of symbolic and concrete iterables')
    n = ss[0].n
    for s in ss[1:]:
        if CTL.branch(s.n < n):
            n = s.n
    if any(s.ghost is not None for s in ss):
        raise Undecided('zip of a sequence with ghost state')
    return ISeq('zip', n, lambda p: tuple(s.at(p) for s in ss), None,
                sum((s.marks for s in ss), ()), None,
                sum((tuple(s.bases()) for s in ss), ()))


def py_chain(*its):
    ss = [as_iseq(i) for i in its]
    if all(s is None for s in ss):
        return gen_chain(*its)
    if any(s is None for s in ss) or any(s.ghost is not None for s in ss):
        raise Undecided('chain of symbolic and concrete iterables')
    n = simp(sum((s.n for s in ss[1:]), ss[0].n))

    def at(p):
        for s in ss[:-1]:
            if CTL.branch(p < s.n):
                return s.at(p)
            p = simp(p - s.n)
        return ss[-1].at(p)
    return ISeq('chain', n, at, None, (), None,
                sum((tuple(s.bases()) for s in ss), ()))


def gen_enumerate(it, i):
    for v in it:
        yield i, v
        i = i + 1


def gen_zip(*its):
    its = [iter(i) for i in its]
    while True:
        row = []
        for i in its:
            try:
                row.append(next(i))
            except StopIteration:
                return
        yield tuple(row)


def gen_chain(*its):
    for i in its:
        yield from i


def py_all(it):
    for v in it:
        if not v:
            return False
    return True


def py_any(it):
    for v in it:
        if v:
            return True
    return False


def py_next(it, *default):
    return next(it, *default)


def py_sum(it, start=0):
    total = start
    for v in it:
        total = total + v
    return total


def _arg_extreme(name, it, key):
    """Contract of min/max over a symbolic sequence."""
    n = it.n
    if not CTL.branch(n > 0):
        raise ValueError(name + '() arg is an empty sequence')
    k = CTL.fresh(name, z3.IntSort())
    CTL.assume(z3.And(k >= 0, k < n))
    v = it.at(k)
    ext = CTL.note.setdefault('extremes', [])
    ext.append((name, it, key, k, v))
    return v


def py_min(*args, key=None, **kw):
    if len(args) == 1 and not kw and as_iseq(args[0]) is not None:
        return _arg_extreme('min', as_iseq(args[0]), key)
    if len(args) == 1:
        args = list(args[0])
        if not args and kw:
            return kw['default']
    best = args[0]
    for v in args[1:]:
        if (v < best if key is None else key(v) < key(best)):
            best = v
    return best


def py_max(*args, key=None, **kw):
    if len(args) == 1 and not kw and as_iseq(args[0]) is not None:
        return _arg_extreme('max', as_iseq(args[0]), key)
    if len(args) == 1:
        args = list(args[0])
        if not args and kw:
            return kw['default']
    best = args[0]
    for v in args[1:]:
        if (v > best if key is None else key(v) > key(best)):
            best = v
    return best


def py_reversed(x):
    s = as_iseq(x)
    if s is None:
        return reversed(x)
    r = ISeq(s.name + '_r', s.n,
             lambda p: s.at(simp(s.n - 1 - p)), base=s.bases())
    r.base_pos = lambda p: s.base_pos(simp(s.n - 1 - p))
    return r


def py_list(*args):
    if args and as_iseq(args[0]) is not None:
        return as_iseq(args[0])
    return list(*args)


def py_tuple(*args):
    if args and as_iseq(args[0]) is not None:
        return as_iseq(args[0])
    return tuple(*args)


SHADOWS = {'all': py_all, 'any': py_any, 'next': py_next, 'len': py_len, 'range': py_range, 'enumerate': py_enumerate,
           'zip': py_zip, 'sum': py_sum, 'min': py_min, 'max': py_max,
           'reversed': py_reversed, 'list': py_list, 'tuple': py_tuple}


def shadow(module):
    """Make a module of /repo see the symbolic-aware builtins."""
    import itertools
    import functools
    for k, v in SHADOWS.items():
        if k not in module.__dict__:
            module.__dict__[k] = v
    bad = []
    for k, v in list(module.__dict__.items()):
        if v is itertools.chain:
            module.__dict__[k] = py_chain
        elif v is itertools or v is functools or v is functools.reduce:
            bad.append(k)
        elif (getattr(v, '__module__', None) == 'itertools'
              and isinstance(v, type)
              and v not in (itertools.groupby,)):
            bad.append(k)
    return bad
