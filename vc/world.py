"""Symbolic inputs and helpers for the contracts: arbitrary states, trees, names, and how outcomes are read."""
import linecache, os, sys, traceback
import z3
import values as V, fakes, rtl, load
from core import ctx, Unsupported, PathEnd, VCStop
from values import (SymTensor, SymTuple, SymBool, SymInt, SymList, SymDict, SymTree, SymTreedef, SymName, SymDType, Group, BaseMap, Num,
                    any_shape, tensor, scalar, focus_index, F_rank, F_isfloat, F_nleaves, TDS, DT, NameS)

HERE = os.path.dirname(os.path.abspath(__file__))


def line_of(fr, lineno):
    fn = fr.f_code.co_filename
    if fn.startswith('<vc>'):
        fn = os.path.join(load.REPO, fn[4:])
    # a statement may span lines: look a few lines up for its start
    return [linecache.getline(fn, k).strip() for k in range(lineno, max(0, lineno - 3), -1)]


def genuine(err, seen=()):
    """Whether an exception is one the real code would raise, rather than a gap of the model."""
    if err is None or err in seen:
        return True
    tb = err.__traceback__
    if tb is not None:
        while tb.tb_next:
            tb = tb.tb_next
        fn = tb.tb_frame.f_code.co_filename
        ours = fn.startswith('<vc>') or fn.startswith(HERE)
        lines = line_of(tb.tb_frame, tb.tb_lineno)
        if isinstance(err, (TypeError, AttributeError, NameError, IndexError, RuntimeError, AssertionError, KeyError, ValueError)):
            if not any(l.startswith(('raise', 'assert')) for l in lines):
                return False
        elif not ours:
            return False
    for e in (err.__cause__, err.__context__):
        if e is not None and not genuine(e, seen + (err,)):
            return False
    return True


class Outcome:
    def __init__(self, value=None, error=None):
        self.value, self.error = value, error
        self.ok = error is None


def attempt(f):
    """Calls the real code; the outcome is a value or the exception it raised."""
    c = ctx()
    try:
        v = f()
        for x in (v, *v) if isinstance(v, tuple) else (v,):
            if isinstance(x, rtl.Havoc):
                raise Unsupported('a result carried over iterations')
        return Outcome(v)
    except VCStop:
        raise
    except RecursionError:
        raise Unsupported('recursion limit')
    except Exception as e:
        if not genuine(e):
            raise Unsupported('python error on symbolic operands: ' + repr(e)[:160] + ' ' +
                              ' < '.join(f'{os.path.basename(x.filename)}:{x.lineno}' for x in traceback.extract_tb(e.__traceback__)[-3:]))
        return Outcome(error=e)
    finally:
        c.loops = []


def dtype(label, floating=True):
    d = SymDType(z3.Const('dtype:' + label, DT))
    c = ctx()
    if floating:
        c.add(F_isfloat(d.z))
        for x in V.DTYPES.values():
            if not x.floating:
                c.add(d.z != x.z)
    return d


def real(label, *facts):
    z = z3.Const(label, Num.sort())
    for f in facts:
        ctx().add(f(z))
    return z


class World:
    """An arbitrary well-formed state over an arbitrary batch shape.

    pending: 'any' (each name has an update or not), 'all', 'none'
    updates: 'match' (leaf count, shapes, types and structure as in the accumulators) or 'any' (the default where updates may or may not be pending: caching accepts anything)
    """
    def __init__(self, c, pending='any', updates=None, probs=True, tag='', dep=True, same_dtype=True):
        V.dtype_axioms(c)
        updates = updates or ('any' if pending == 'any' else 'match')
        self.c, self.pending, self.upd, self.tag, self.same = c, pending, updates, tag, same_dtype
        fp = c.mode == 'fp'
        if 'world:B' not in c.cache:
            c.cache['world:B'] = any_shape('B', True)
        self.B = c.cache['world:B']
        self.D = V.F32 if fp else dtype('core')
        one, zero = Num.const(1), Num.const(0)
        le = (lambda a, b: z3.fpLEQ(a, b)) if fp else (lambda a, b: a <= b)
        lt = (lambda a, b: z3.fpLT(a, b)) if fp else (lambda a, b: a < b)
        self.le, self.lt = le, lt
        self.eps = real('epsilon', lambda z: lt(zero, z), lambda z: lt(z, one))
        self.dep = real('depression', lambda z: le(zero, z)) if dep else real('depression')
        unit = (lambda v: z3.And(le(zero, v), le(v, one))) if probs else None
        self.P = tensor('P' + tag, self.B, self.D, fact=unit)
        self.R = tensor('Res' + tag, self.B, self.D, fact=unit)
        self.I = tensor('It' + tag, self.B, self.D, fact=(lambda v: le(zero, v)) if probs else None)
        for f in 'PRI':
            V.origin(getattr(self, f), f + tag)
        for f in 'PRI':
            o = V.alias_of(f + tag)
            if o != f + tag and o.replace(tag, '') in ('P', 'R', 'I'):
                setattr(self, f, getattr(self, o[:1]))
        self.n = z3.Const('n', NameS)           # the arbitrary name
        self.k = z3.Int('k')                    # the arbitrary leaf
        c.focus_names, c.focus_leaf = [self.n], [self.k]
        has = z3.Function('defined', NameS, z3.BoolSort())
        self.has = has
        self.fp = fp
        self.td = z3.Function('structure', NameS, TDS)
        self.acc_map = BaseMap('acc' + tag, self._acc, has)
        self.def_map = BaseMap('def' + tag, self._def, has)
        self.upd_map = BaseMap('upd' + tag, self._upd, has)
        self.acc_map._card = self.def_map._card = self.upd_map._card = z3.Int('card:names')
        self.acc_map.label, self.def_map.label, self.upd_map.label = 'acc', 'def', 'upd'
        self.accs, self.defs, self.upds = SymDict(self.acc_map), SymDict(self.def_map), SymDict(self.upd_map)
        for d in (self.accs, self.defs, self.upds):
            d.frozen = True
        self.mode_v = c.cache.setdefault('world:mode' + tag, V.Maybe('error mode' + tag))
        self.eps_v, self.dep_v = scalar(self.eps, True, traced=True), scalar(self.dep, True, traced=True)

    # ---- leaves
    def tail(self, t, k):
        """Shape of a leaf behind the batch dimensions."""
        return self.cached(('tail', t, k), lambda: any_shape(f'tail:{t.sexpr()}:{k.sexpr()}', True))

    def ldtype(self, t, k):
        return self.D if self.fp or self.same else self.cached(('ldt', t, k), lambda: dtype(f'leaf:{t.sexpr()}:{k.sexpr()}'))

    def cached(self, key, f):
        key = (key[0], key[1].sexpr(), key[2].sexpr())
        if key not in self.c.cache:
            self.c.cache[key] = f()
        return self.c.cache[key]

    def _tree(self, kind, t):
        kind = V.alias_of(kind)
        return self.cached(('tree:' + kind, t, t), lambda: V.origin(self._new_tree(kind, t), kind))

    def given(self, t, make):
        """A tree handed over for the name t: any, and it may be one of the state's own."""
        k = V.alias_of('item')
        if k == 'item':
            k = ctx().eng.alias[1] if 'item' in ctx().eng.alias else k
        if k != 'item':
            ctx().assume(self.has(t))
            return self._tree(k, t)
        return V.origin(make(), 'item')

    def _new_tree(self, kind, t):
        td = self.td(t)
        return SymTree(td, lambda k: self.cached((kind, t, k), lambda: tensor(f'{kind}:{t.sexpr()}:{k.sexpr()}', self.B + self.tail(t, k), self.ldtype(t, k))),
                       f'{kind}:{t.sexpr()}')

    def _acc(self, t):
        return self._tree('acc' + self.tag, t)

    def _def(self, t):
        return self._tree('def' + self.tag, t)

    def is_pending(self, t):
        return z3.Function('pending' + self.tag, NameS, z3.BoolSort())(t)

    def _upd(self, t):
        c = self.c
        p = self.pending
        if p == 'none':
            return None
        if p == 'any' and not c.branch(self.is_pending(t)):
            return None
        if self.upd == 'match':
            return self._tree('upd' + self.tag, t)
        if V.alias_of('upd' + self.tag) != 'upd' + self.tag:
            return self._tree('upd' + self.tag, t)
        td = z3.Function('upd_structure' + self.tag, NameS, TDS)(t)
        return self.cached(('tree:upd', t, t), lambda: V.origin(
            SymTree(td, lambda k: self.cached(('upd' + self.tag, t, k), lambda: self.any_leaf(f'upd{self.tag}:{t.sexpr()}:{k.sexpr()}')), f'upd:{t.sexpr()}'), 'upd' + self.tag))

    def any_leaf(self, label, floating=True):
        return tensor(label, any_shape('shape:' + label), dtype('of:' + label, floating))

    def nonempty(self):
        """There are accumulators."""
        m = z3.Const('some accumulator', NameS)
        self.c.assume(z3.And(self.acc_map.card() > 0, self.has(m)))
        self.c.witness(m)

    # ---- the object
    def state(self):
        from src.jax_act.core.states import ACTStates
        return ACTStates(epsilon=self.eps_v, iterations=self.I, residuals=self.R, probabilities=self.P, defaults=self.defs,
                         accumulators=self.accs, updates=self.upds, depression_constant=self.dep_v, error_mode=self.mode_v)

    # ---- positions
    def b(self):
        return focus_index(self.B)

    def acc_leaf(self):
        return self.accs_at(self.accs)

    def accs_at(self, d):
        return d.lookup(SymName(self.n)).leaf(self.k)

    def assume_focus(self):
        """n is a defined name and k a leaf of its accumulator."""
        c = self.c
        c.assume(self.has(self.n))
        c.assume(z3.And(self.k >= 0, self.k < F_nleaves(self.td(self.n))))


    def assume_bare(self, leafless):
        """There are no accumulators; or n is one whose trees have no leaves."""
        c = self.c
        if leafless:
            self.nonempty()
            c.assume(self.has(self.n))
            c.assume(F_nleaves(self.td(self.n)) == 0)
        else:
            c.assume(self.acc_map.card() == 0)
            c.assume(z3.Not(self.has(self.n)))


def same_shape(a, b):
    """Whether two shapes are equal: a python bool or a term."""
    a, b = V.as_shape(a), V.as_shape(b)
    if rtl.same_items(a, b):
        return z3.BoolVal(True)
    e = V.SymBoolShape(a, b, True)
    ra, rb = a.rank(), b.rank()
    return z3.And(e.z, ra == rb)


def frozen_ok(c):
    return not any(e[0] == 'mutation' for e in c.events)


def equal_tensor(c, name, a, b):
    """a and b are tensors of equal shape, dtype and contents (at the arbitrary position)."""
    if a is b:
        c.holds(name, True)
        return
    if not isinstance(a, SymTensor) or not isinstance(b, SymTensor):
        c.holds(name, a is b, f'{type(a).__name__} instead of {type(b).__name__}')
        return
    sh = same_shape(a.sshape, b.sshape)
    if not c.provable(sh):
        c.prove(name, sh)
        return
    x, y = same_pos(a, b)
    eq = z3.And(x == y, a.dtype.z == b.dtype.z) if x.sort() == y.sort() else z3.And(V.num(x) == V.num(y), a.dtype.z == b.dtype.z)
    c.prove(name, eq)


def same_pos(a, b):
    return a.elem(focus_index(a.sshape)), b.elem(focus_index(b.sshape))


def scout(c):
    """A second arbitrary leaf position, for code that reads a list built in one loop again in another one."""
    c.scout = z3.Int('k*')
    c.focus_leaf = c.focus_leaf + [c.scout]


def dim_at(shape, i):
    """Dimension i of a shape, as a term."""
    shape = V.as_shape(shape)
    off, parts = z3.IntVal(0), []
    for it in shape.norm():
        n = V.F_rank(it[1].z) if it[0] == 'seg' else it[2] if it[0] == 'rep' else z3.IntVal(1)
        parts.append((off + n, V.F_dim(it[1].z, z3.simplify(i - off)) if it[0] == 'seg' else V.int_term(it[1])))
        off = off + n
    if not parts:
        return z3.IntVal(0)
    v = parts[-1][1]
    for hi, x in reversed(parts[:-1]):
        v = z3.If(i < hi, x, v)
    return z3.simplify(v)
