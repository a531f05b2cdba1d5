"""Path-exploring verification-condition generator: contexts, solver access, obligations.

A harness is executed again and again, once per feasible path of the real code.  Every decision the real code takes on
a symbolic value is recorded, and the alternatives are explored depth first.  Obligations are discharged by z3 on the
path condition under which they arise.
"""
import sys, time, collections
import z3


class VCStop(BaseException):
    """Base of the control exceptions of the engine; the code under verification cannot catch them."""


class PathEnd(VCStop):
    """This path is infeasible, or its outcome is covered by another path."""


class Restart(VCStop):
    """Re-run the same path: something was learnt about a loop."""


class Unsupported(VCStop):
    """The code left the subset the engine understands."""
    def __init__(self, why):
        fr, where = sys._getframe(1), None
        while fr is not None:
            fn = fr.f_code.co_filename
            if fn.startswith('<vc>'):
                where = f'{fn[4:]}:{fr.f_lineno}'
                break
            fr = fr.f_back
        super().__init__(why + (f' at {where}' if where else ''))


class Budget(VCStop):
    pass


class _Ctx:
    cur = None


def ctx():
    return _Ctx.cur


class Obligation:
    __slots__ = ('name', 'paths', 'ok', 'refuted', 'unknown', 'detail', 'time')

    def __init__(self, name):
        self.name, self.paths, self.ok, self.refuted, self.unknown = name, 0, 0, 0, 0
        self.detail, self.time = None, 0.


class Engine:
    """Runs one harness over all its paths."""
    def __init__(self, name, timeout_ms=10000, max_paths=4000, deadline=None, dump=None):
        self.name, self.timeout, self.max_paths, self.deadline = name, timeout_ms, max_paths, deadline
        self.obls = collections.OrderedDict()
        self.memo = {}             # loop templates, kept over restarts
        self.signatures = {}       # loop id -> set of effect signatures
        self.covers = collections.Counter()
        self.unsupported = []
        self.paths = self.queries = 0
        self.solver_time = 0.
        self.dump = dump           # list collecting (name, smt2) of the discharged obligations, for a second solver
        self.assumed = set()       # trusted facts used
        self.cover_needed = set()
        self.inlined = set()
        self.relearn = False
        self.alias, self.alias_wanted = (), set()     # kinds of inputs taken to be the same objects; those whose identity the code asked for
        self.want = None           # only obligations whose name starts with this are generated

    def run(self, harness):
        """Explores all paths; anew when the shape of a loop invariant was learnt on the way."""
        self.t0 = time.time()
        for again in range(4):
            self.relearn, self.alias, done = False, (), set()
            self._run(harness)
            while not self.relearn and self.alias_wanted - done and len(done) < 6:
                # the code tells identical objects from equal ones: once more, with these inputs identical
                self.alias = min(self.alias_wanted - done)
                done.add(self.alias)
                self._run(harness)
            if not self.relearn:
                if self.alias_wanted - done:
                    self.unsupported.append('too many questions of identity')
                return self
            self.obls.clear()
            self.covers.clear()
            self.signatures.clear()
            if self.dump is not None:
                del self.dump[:]
            del self.unsupported[:]
        self.unsupported.append('loop invariants did not settle')
        return self

    def _run(self, harness):
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.unsupported.append('exploration budget exhausted')
                break
            prefix = stack.pop()
            for attempt in range(12):
                c = Ctx(self, prefix)
                _Ctx.cur = c
                try:
                    harness(c)
                    self.covers['path'] += 1
                except Restart:
                    continue
                except PathEnd:
                    pass
                except Unsupported as e:
                    if str(e) not in self.unsupported:
                        self.unsupported.append(str(e))
                except Budget as e:
                    self.unsupported.append(str(e))
                except RecursionError:
                    self.unsupported.append('recursion limit')
                finally:
                    _Ctx.cur = None
                break
            else:
                self.unsupported.append('loop summary did not stabilise')
            self.paths += 1
            stack.extend(c.alternatives)
            if len(self.unsupported) > 8:
                break
        for lid, sigs in self.signatures.items():
            if len(sigs) > 1:
                self.unsupported.append(f'loop {lid} has iterations of different shape: {sorted(map(str, sigs))}')
        for cv in sorted(self.cover_needed):
            if not self.covers[cv]:
                self.unsupported.append(f'vacuous: no path reached {cv}')
        return self

    # ------------------------------------------------------------------ queries
    def check(self, assertions, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*assertions)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r, s


class Ctx:
    """One execution."""
    def __init__(self, eng, prefix):
        self.eng, self.prefix, self.pos = eng, prefix, 0
        self.decisions = []
        self.alternatives = []
        self.pc = []
        self.doubtful = False
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.timeout)
        self.counter = collections.Counter()
        self.focus_names, self.focus_leaf = [], []
        self.focus_dim = None      # the arbitrary dimension of a shape, where it is not the arbitrary leaf
        self.universals = []       # callables instantiating universally quantified facts at a new witness
        self.witnesses = []
        self.positions = []        # the positions of collections met besides the focus
        self.events = []           # content-dependent branches and the like
        self.loops = []            # open loop iterations
        self.alias = {}            # shape variable -> shape
        self.cache = {}
        self.checks = None         # active checkify context
        self.subst_mode = None
        self.mode = 'real'
        self.scout, self.scout_used = None, False   # an arbitrary second leaf position

    # ------------------------------------------------------------- primitives
    def name(self, base):
        self.counter[base] += 1
        return f'{base}!{self.counter[base]}'

    def focus(self, g):
        """The arbitrary positions followed in a collection."""
        return self.focus_leaf if self.focus_dim is None or g.owner != 'dims' else self.focus_dim

    def add(self, e):
        e = z3.simplify(e) if not isinstance(e, bool) else z3.BoolVal(e)
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def feasible(self, extra=None):
        t = time.time()
        if extra is None:
            r = self.solver.check()
        else:
            r = self.solver.check(extra)
        self.eng.solver_time += time.time() - t
        self.eng.queries += 1
        if r == z3.unknown:
            self.doubtful = True           # from here on the path may be impossible, or treated less exactly than it could be
            if (w := 'the solver gave no answer to a question of a path') not in self.eng.unsupported:
                self.eng.unsupported.append(w)
        return r != z3.unsat

    def assume(self, e):
        """A precondition, or a fact that follows from a trusted contract."""
        e = to_z3(e)
        self.add(e)
        if not self.feasible():
            raise PathEnd()

    def branch(self, e, why=None):
        """Decide a symbolic condition on this path."""
        e = z3.simplify(to_z3(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.eng.deadline and time.time() > self.eng.deadline:
            raise Budget('time budget exhausted')
        t = time.time()
        can_t = self.feasible(e)
        can_f = self.feasible(z3.Not(e)) if can_t else True
        if not can_t and not self.feasible():
            raise PathEnd()
        if can_t and can_f:
            d = self._decide(2) == 0
        else:
            d = can_t
        self.add(e if d else z3.Not(e))
        return d

    def choose(self, n):
        """Unconditional choice between n continuations."""
        return self._decide(n)

    def _decide(self, n):
        if len(self.decisions) > 400:
            raise Budget('path too long')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alternatives.append(self.decisions + [k])
        self.pos += 1
        self.decisions.append(d)
        return d

    def provable(self, e):
        """Whether the path condition implies e (used to keep terms simple, never to decide an obligation)."""
        e = z3.simplify(to_z3(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return not self.feasible(z3.Not(e))

    # ------------------------------------------------------------- obligations
    def wanted(self, name):
        return self.eng.want is None or name.startswith(self.eng.want)

    def prove(self, name, goal):
        if not self.wanted(name):
            return True
        goal = to_z3(goal)
        o = self.eng.obls.get(name)
        if o is None:
            o = self.eng.obls[name] = Obligation(name)
        o.paths += 1
        t = time.time()
        r, s = self.eng.check(self.pc + [z3.Not(goal)])
        o.time += time.time() - t
        if r == z3.unsat:
            o.ok += 1
            if self.eng.dump is not None:
                self.eng.dump.append((name, s.to_smt2()))
        elif r == z3.sat and not self.doubtful:
            o.refuted += 1
            if o.detail is None:
                m = s.model()
                o.detail = {'path': [str(x)[:300] for x in self.pc[-12:]], 'goal': str(z3.simplify(goal))[:600],
                            'model': {str(d): str(m[d])[:200] for d in list(m.decls())[:40]}}
        else:
            o.unknown += 1
            if o.detail is None:
                o.detail = {'goal': str(goal)[:400], 'reason': s.reason_unknown()}
        return r == z3.unsat

    def fail(self, name, why):
        """An obligation that does not hold on this (feasible) path."""
        if not self.wanted(name):
            return
        o = self.eng.obls.get(name)
        if o is None:
            o = self.eng.obls[name] = Obligation(name)
        o.paths += 1
        t = time.time()
        r, s = self.eng.check(self.pc)
        o.time += time.time() - t
        if r == z3.unsat:
            o.ok += 1
            return
        if r == z3.sat and not self.doubtful:
            o.refuted += 1
        else:
            o.unknown += 1
        if o.detail is None:
            o.detail = {'path': [str(x)[:300] for x in self.pc[-12:]], 'goal': why}
            if r == z3.sat:
                m = s.model()
                o.detail['model'] = {str(d): str(m[d])[:200] for d in list(m.decls())[:40]}

    def holds(self, name, cond, why=''):
        """A proof obligation whose goal is already decided on this path (identity, kind of result...)."""
        if cond:
            self.prove(name, z3.BoolVal(True))
        else:
            self.fail(name, why or name)

    def cover(self, name):
        self.eng.covers[name] += 1

    def witness(self, w):
        """A new name of interest: universally quantified facts are instantiated at it."""
        self.witnesses.append(w)
        for u in list(self.universals):
            u(w)

    def universal(self, u):
        self.universals.append(u)
        for w in self.focus_names + list(self.witnesses):
            u(w)


def to_z3(e):
    if isinstance(e, bool):
        return z3.BoolVal(e)
    if hasattr(e, 'z'):
        return e.z
    return e
