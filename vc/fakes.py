"""Trusted contracts of the dependencies: jax, jax.numpy, jax.lax, jax.tree_util, checkify, flax, numpy.

The modules of /repo are executed by CPython with these modules in place of the real ones.  Each function implements
the documented contract of the real one on the symbolic values of values.py, for every rank and every content;
whatever is not modelled raises Unsupported, so that it is never mistaken for a verdict.
"""
import sys, types, builtins
import z3
import values as V
from core import ctx, to_z3, Unsupported, PathEnd
from values import (SymTensor, SymTuple, SymBool, SymInt, SymList, SymDict, SymTree, SymTreedef, SymName, SymDType, Group, AllOf,
                    LazySeq, SymView, Num, arith, num, scalar, is_bool, as_shape, as_dtype, as_list, mkint, int_term,
                    F32, BOOL, I32, F_isfloat, F_rank, DT, focus_index, pred_of, Opaque, unify)

F_promote = z3.Function('promote', DT, DT, DT)
F_blank = z3.Function('with_none_for_leaves', V.TDS, V.TDS)
F_isint = z3.Function('is_integer', DT, z3.BoolSort())


# ------------------------------------------------------------------------- broadcasting
def keyed(items):
    return [it for it in items if it[0] != 'rep']


def is_ones(it):
    return it[0] == 'rep' and isinstance(it[1], int) and it[1] == 1


def item_rank(it):
    return F_rank(it[1].z) if it[0] == 'seg' else it[2] if it[0] == 'rep' else z3.IntVal(1)


def align(sa, sb):
    """Right-aligned pairs of items of two shapes; raises TypeError where numpy cannot broadcast."""
    c = ctx()
    for attempt in range(20):
        a, b = list(sa.norm()), list(sb.norm())
        pairs, again = [], False
        while a and b:
            p, q = a[-1], b[-1]
            if V.same_item(p, q):
                pairs.append((p, q)); a.pop(); b.pop()
                continue
            # a prefix that is missing on one side altogether
            swapped = False
            if is_ones(q) and not is_ones(p):
                a, b, p, q, swapped = b, a, q, p, True
            if is_ones(p):
                rp, rq = p[2], item_rank(q)
                if c.branch(rp == rq):
                    pairs.append((q, p) if swapped else (p, q)); a.pop(); b.pop()
                elif c.branch(rp < rq):
                    if q[0] == 'seg':
                        # only the last rp dimensions of q face the ones; the rest faces what is left of the other side
                        if len(a) == 1:
                            pairs.append((q, p) if swapped else (p, q)); a.pop(); b.pop()
                        elif c.branch(rp == 0):
                            a.pop()
                        else:
                            V.split_seg(q[1], z3.simplify(rq - rp))
                            again = True
                    elif q[0] == 'rep':
                        pairs.append((('rep', 1, rp), ('rep', q[1], rp)) if not swapped else (('rep', q[1], rp), ('rep', 1, rp)))
                        a.pop()
                        b[-1] = ('rep', q[1], z3.simplify(rq - rp))
                    else:                       # rp < 1: no ones at all
                        a.pop()
                else:
                    pairs.append((q, ('rep', 1, rq)) if swapped else (('rep', 1, rq), q))
                    b.pop()
                    a[-1] = ('rep', 1, z3.simplify(rp - rq))
                if swapped:
                    a, b = b, a
                if again:
                    break
                continue
            if p[0] == 'c' and q[0] == 'c':
                x, y = int_term(p[1]), int_term(q[1])
                if c.branch(x == y):
                    pairs.append((p, q))
                elif c.branch(x == 1):
                    pairs.append((('rep', 1, z3.IntVal(1)), q))
                elif c.branch(y == 1):
                    pairs.append((p, ('rep', 1, z3.IntVal(1))))
                else:
                    raise TypeError('Incompatible shapes for broadcasting')
                a.pop(); b.pop()
                continue
            # two different runs of unknown dimensions
            raise Unsupported('broadcasting of unrelated shapes')
        if again:
            continue
        for it in reversed(a):
            pairs.append((it, None))
        for it in reversed(b):
            pairs.append((None, it))
        pairs.reverse()
        return pairs
    raise Unsupported('broadcasting does not settle')


def broadcast(*tensors):
    """(result shape, [index map per tensor]); an index has one entry per keyed item."""
    shape = tensors[0].sshape
    maps = [None]
    first = SymTuple(shape.norm())
    k0 = len(keyed(first.norm()))
    maps = [list(range(k0))]
    for t in tensors[1:]:
        pairs = align(shape, t.sshape)
        items, mr, mt, pos = [], [], [], 0
        for p, q in pairs:
            if p is None:
                r = q
            elif q is None:
                r = p
            elif is_ones(p):
                r = q
            else:
                r = p
            items.append(r)
            keyed_r = r[0] != 'rep'
            if p is not None and p[0] != 'rep':
                mr.append(pos)
            if q is not None and q[0] != 'rep':
                mt.append(pos)
            if keyed_r:
                pos += 1
        maps = [[mr[i] for i in m] for m in maps]
        maps.append(mt)
        shape = SymTuple(items)
    arity = len(keyed(shape.norm()))
    # aligning a later operand may have cut an earlier one
    for t, m in zip(tensors, maps):
        if len(keyed(t.sshape.norm())) != len(m):
            raise Unsupported('shape cut during broadcasting')
    return shape, arity, maps


def handed_on(t, *of):
    t.traced = any(x.traced for x in of)
    return t


def mk(shape, arity, f, dtype, weak=False, static=False):
    def elem(ix):
        if len(ix) != arity:
            raise Unsupported('a shape was refined after the tensor was made')
        return f(ix)
    return SymTensor(SymTuple(shape.norm()), elem, dtype, weak, static)


def as_t(x):
    """Anything numeric as a tensor."""
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, bool):
        return scalar(z3.BoolVal(x), True, BOOL, False)
    if isinstance(x, int):
        return scalar(z3.IntVal(x), True, I32, True)
    if isinstance(x, float):
        return scalar(Num.const(x), True, F32, True)
    if isinstance(x, SymBool):
        return scalar(x.z, not x.content, BOOL, False)
    if isinstance(x, SymInt):
        return scalar(x.z, True, I32, True)
    if isinstance(x, SymTree):
        return x.as_tensor()
    if isinstance(x, (SymList, list, tuple)):
        raise Unsupported('a list as a tensor')
    raise TypeError(f'not a valid array type: {type(x).__name__}')


def known(d):
    return any(d.z.eq(x.z) for x in V.DTYPES.values())


# the lattice of element types, weak ones with a star
ABOVE = {'bool': ['i*'], 'i*': ['uint8', 'int8'], 'uint8': ['uint16', 'int16'], 'int8': ['int16'], 'uint16': ['uint32', 'int32'], 'int16': ['int32'],
         'uint32': ['uint64', 'int64'], 'int32': ['int64'], 'uint64': ['f*'], 'int64': ['f*'], 'f*': ['bfloat16', 'float16', 'c*'], 'bfloat16': ['float32'],
         'float16': ['float32'], 'float32': ['float64', 'complex64'], 'c*': ['complex64'], 'float64': ['complex128'], 'complex64': ['complex128'], 'complex128': []}
# without 64 bit types
NARROW = {'i*': 'int32', 'f*': 'float32', 'c*': 'complex64', 'int64': 'int32', 'uint64': 'uint32', 'float64': 'float32', 'complex128': 'complex64'}


def _above(n, memo={}):
    if n not in memo:
        memo[n] = {n}.union(*[_above(m) for m in ABOVE[n]])
    return memo[n]


def _node(t):
    """The place of an element type in the lattice; None for a type of which only the kind is known."""
    for n, d in V.DTYPES.items():
        if t.dtype.z.eq(d.z):
            if not t.weak or n == 'bool':
                return n
            return 'i*' if 'int' in n else 'f*' if d.floating else 'c*'
    return None


def promote(a, b):
    """dtype and weakness of an arithmetic result."""
    da, db = a.dtype, b.dtype
    na, nb = _node(a), _node(b)
    if na and nb:
        if na == nb:
            return da, a.weak and b.weak
        up = _above(na) & _above(nb)
        n = [x for x in up if up <= _above(x)][0]
        return V.DTYPES[NARROW.get(n, n)], '*' in n
    if da.z.eq(db.z):
        return da, a.weak and b.weak
    c = ctx()
    if a.weak and not b.weak or b.weak and not a.weak:
        w, s = (a, b) if a.weak else (b, a)
        if w.dtype.z.eq(I32.z) or w.dtype.z.eq(F32.z):
            if c.provable(F_isfloat(s.dtype.z)):
                return s.dtype, False
            if w.dtype.z.eq(I32.z):
                if not c.provable(s.dtype.z != BOOL.z):
                    return _weak(s, w), False
                return s.dtype, False
            return _weak(s, w), False
    if da.z.eq(BOOL.z):
        return db, b.weak
    if db.z.eq(BOOL.z):
        return da, a.weak
    if c.provable(da.z == db.z):
        return da, False
    return _prom(da, db), False


def _weak(s, w):
    """The type of a strongly typed operand of unknown kind with a python number."""
    c = ctx()
    t = z3.Function('promote_with_' + ('integer' if w.dtype.z.eq(I32.z) else 'float'), DT, DT)(s.dtype.z)
    c.add(z3.Implies(F_isfloat(s.dtype.z), t == s.dtype.z))
    c.add(z3.Implies(s.dtype.z == BOOL.z, t == w.dtype.z))
    if w.dtype.z.eq(I32.z):
        c.add(z3.Implies(s.dtype.z != BOOL.z, t == s.dtype.z))
    return SymDType(t)


def _prom(da, db):
    c = ctx()
    t = F_promote(da.z, db.z)
    fl = z3.Or(F_isfloat(da.z), F_isfloat(db.z))
    c.add(z3.Implies(fl, F_isfloat(t)))
    c.add(t == F_promote(db.z, da.z))
    c.add(z3.Implies(da.z == db.z, t == da.z))
    c.add(z3.Implies(da.z == BOOL.z, t == db.z))
    c.add(z3.Implies(db.z == BOOL.z, t == da.z))
    return SymDType(t)


CMP = ('lt', 'le', 'gt', 'ge', 'eq', 'ne')


def binop(op, a, b):
    a, b = as_t(a), as_t(b)
    shape, arity, (ma, mb) = broadcast(a, b)
    if op in CMP:
        dt, weak = BOOL, False
    else:
        dt, weak = promote(a, b)
        if op == 'div' and not ctx().provable(F_isfloat(dt.z)):
            dt = F32
        if op in ('and', 'or', 'xor') and not (is_bool(a) and is_bool(b)):
            raise Unsupported('bitwise operation on numbers')
        if op in ('add', 'sub', 'mul') and is_bool(a) and is_bool(b):
            raise Unsupported('arithmetic on two boolean tensors')

    if op in ('add', 'sub', 'mul', 'div') and getattr(ctx(), 'opaque_near', False):
        ctx().doubtful = True

    def f(ix):
        return arith(op, a.elem(tuple(ix[i] for i in ma)), b.elem(tuple(ix[i] for i in mb)))
    return handed_on(mk(shape, arity, f, dt, weak, a.static and b.static), a, b)


def unop(f, a, dtype=None):
    n = len(keyed(a.sshape.norm()))
    return handed_on(mk(a.sshape, n, lambda ix: f(a.elem(ix)), dtype or a.dtype, a.weak, a.static), a)


def cast(t, d):
    if d is None or t.dtype.z.eq(d.z):
        return SymTensor(t.sshape, t._elem, t.dtype, False, False) if d is not None else t
    c = ctx()
    n = len(keyed(t.sshape.norm()))
    if d.z.eq(BOOL.z):
        return mk(t.sshape, n, lambda ix: t.elem(ix) if z3.is_bool(t.elem(ix)) else arith('ne', t.elem(ix), Num.const(0)), d)
    if c.provable(t.dtype.z == d.z) or c.provable(F_isfloat(d.z)):
        # floating casts are exact in mathematical arithmetic
        if Num.fp() and not c.provable(z3.Or(t.dtype.z == d.z, t.dtype.z == BOOL.z)):
            raise Unsupported('cast between floating types in IEEE mode')
        return mk(t.sshape, n, lambda ix: num(t.elem(ix)), d)
    if is_bool(t):
        return mk(t.sshape, n, lambda ix: num(t.elem(ix)), d)
    if Num.fp():
        raise Unsupported('cast to an unknown type')

    def lossy(ix):
        ctx().doubtful = True            # nothing is known about the value
        return z3.Function('cast', V.DT, V.DT, Num.sort(), Num.sort())(t.dtype.z, d.z, num(t.elem(ix)))
    return mk(t.sshape, n, lossy, d)


def index(t, i):
    """Basic indexing that only adds unit dimensions."""
    if isinstance(i, SymTuple):
        items = i.items
    elif isinstance(i, tuple):
        items = [('c', x) for x in i]
    else:
        items = [('c', i)]
    seen, pre, post, full = False, [], [], 0
    for it in items:
        if it[0] == 'c' and it[1] is Ellipsis:
            if seen:
                raise IndexError('an index can only have a single ellipsis')
            seen = True
        elif it[1] is None:
            (post if seen else pre).append(('rep', 1, it[2] if it[0] == 'rep' else z3.IntVal(1)))
        elif it[0] == 'c' and isinstance(it[1], slice) and it[1] == slice(None) and not seen:
            full += 1
        else:
            raise Unsupported('indexing of a tensor')
    if full:
        if pre or not ctx().provable(t.sshape.rank() == full):
            raise Unsupported('indexing of a tensor')
    for it in pre + post:
        if not ctx().provable(it[2] >= 0):
            raise Unsupported('negative repetition')
    n = len(keyed(t.sshape.norm()))
    base = t.sshape.norm()
    return mk(SymTuple(pre + base + post) if seen or not full else SymTuple(base + post), n, lambda ix: t.elem(ix), t.dtype, t.weak)


# ------------------------------------------------------------------------------- jnp
class Unknown(Opaque):
    """An attribute of a dependency without a contract."""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __call__(self, *a, **k):
        raise Unsupported(f'call of {self._n}, which has no contract')

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Unknown(self._n + '.' + n)

    def __getitem__(self, i):
        return self

    def __or__(self, o):
        return self

    def __ror__(self, o):
        return self

    def __mro_entries__(self, bases):
        return ()


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Unknown(self.__name__ + '.' + n)


class Floating:
    """jnp.floating"""


class Integer:
    """jnp.integer"""


class Inexact:
    """jnp.inexact"""


class Complex:
    """jnp.complexfloating"""


class Signed:
    """jnp.signedinteger"""


class Unsigned:
    """jnp.unsignedinteger"""


class Number:
    """jnp.number"""


class Generic:
    """jnp.generic"""


# the kind of an element type: 0 floating, 1 signed integer, 2 unsigned integer, 3 boolean, 4 complex
F_kind = z3.Function('kind_of', DT, z3.IntSort())
KINDS = {Floating: (0,), Integer: (1, 2), Signed: (1,), Unsigned: (2,), Complex: (4,), Inexact: (0, 4), Number: (0, 1, 2, 4), Generic: (0, 1, 2, 3, 4)}


def kind_of(d):
    """The kind of an element type, with what is known of it."""
    c = ctx()
    if 'kinds' not in c.cache:
        c.cache['kinds'] = True
        for n, x in V.DTYPES.items():
            k = 0 if x.floating else 3 if n == 'bool' else 4 if n.startswith('complex') else 2 if n.startswith('u') else 1
            c.add(F_kind(x.z) == k)
    k = F_kind(d.z)
    key = ('kind', d.z.sexpr())
    if key not in c.cache:
        c.cache[key] = True
        c.add(z3.And(k >= 0, k <= 4, F_isfloat(d.z) == (k == 0), (k == 3) == (d.z == V.BOOL.z)))
    return k


jnp, lax, tree_util, checkify, jax, flax, nn, numpy = (Mod(n) for n in (
    'jax.numpy', 'jax.lax', 'jax.tree_util', 'jax.experimental.checkify', 'jax', 'flax', 'flax.linen', 'numpy'))


def fn(mod, *names):
    def deco(f):
        for n in names or (f.__name__.rstrip('_'),):
            setattr(mod, n, f)
        return f
    return deco


jnp.ndarray = SymTensor
jnp.dtype = SymDType
for _n, _d in V.DTYPES.items():
    setattr(jnp, _n if _n != 'bool' else 'bool_', _d)
for _m in (jnp, numpy):
    _m.floating, _m.integer, _m.inexact, _m.complexfloating, _m.signedinteger, _m.unsignedinteger, _m.number, _m.generic = \
        Floating, Integer, Inexact, Complex, Signed, Unsigned, Number, Generic
jnp.inf, jnp.nan, jnp.pi, jnp.newaxis = float('inf'), float('nan'), 3.141592653589793, None


class NpArray:
    """numpy.ndarray: never the type of a value here."""


numpy.ndarray = NpArray


def _dt(d):
    if d is None:
        return None
    r = as_dtype(d)
    if r is None:
        if isinstance(d, type) and d in KINDS:
            raise TypeError('abstract dtype')
        raise Unsupported('dtype argument')
    return r


@fn(jnp)
def asarray(x, dtype=None, **k):
    t = as_t(x)
    d = _dt(dtype)
    return handed_on(SymTensor(t.sshape, t._elem, t.dtype, t.weak and d is None, t.static), t) if d is None else cast(t, d)


jnp.array = asarray


def _shape_arg(s):
    r = as_shape(s)
    if r is None:
        raise TypeError('Shapes must be sequences of integers')
    for it in r.items:
        if it[0] == 'c':
            if isinstance(it[1], bool) or not isinstance(it[1], (int, SymInt)):
                raise TypeError('Shapes must be sequences of integers')
            if not ctx().branch(int_term(it[1]) >= 0):
                raise ValueError('negative dimension')
    return r


@fn(jnp)
def full(shape, fill_value, dtype=None):
    shape = _shape_arg(shape)
    v = as_t(fill_value)
    if not ctx().provable(v.sshape.rank() == 0):
        raise Unsupported('jnp.full with a tensor')
    v = cast(v, _dt(dtype)) if dtype is not None else v
    n = len(keyed(shape.norm()))
    return mk(shape, n, lambda ix: v.elem(()), v.dtype, v.weak and dtype is None)


@fn(jnp)
def zeros(shape, dtype=None):
    return full(shape, 0.0, dtype if dtype is not None else F32)


@fn(jnp)
def ones(shape, dtype=None):
    return full(shape, 1.0, dtype if dtype is not None else F32)


@fn(jnp)
def full_like(a, fill_value, dtype=None, shape=None):
    a = as_t(a)
    r = full(a.sshape if shape is None else shape, fill_value, dtype or a.dtype)
    if dtype is None and a.weak:
        r.weak = True
    return r


@fn(jnp)
def zeros_like(a, dtype=None, shape=None):
    a = as_t(a)
    if is_bool(a) and dtype is None:
        return full_like(a, False)
    return full_like(a, 0.0, dtype, shape)


@fn(jnp)
def ones_like(a, dtype=None, shape=None):
    a = as_t(a)
    if is_bool(a) and dtype is None:
        return full_like(a, True)
    return full_like(a, 1.0, dtype, shape)


def _elementwise(f, tensors, dtype, weak=False):
    shape, arity, maps = broadcast(*tensors)
    return mk(shape, arity, lambda ix: f(*[t.elem(tuple(ix[i] for i in m)) for t, m in zip(tensors, maps)]), dtype, weak)


def _ite(p, x, y):
    if z3.is_bool(x) and z3.is_bool(y):
        return z3.If(p, x, y)
    if z3.is_int(x) and z3.is_int(y) and not Num.fp():
        return z3.If(p, x, y)
    return z3.If(p, num(x), num(y))


@fn(jnp)
def where(condition, x=None, y=None):
    if x is None or y is None:
        raise Unsupported('one-argument where')
    p, x, y = as_t(condition), as_t(x), as_t(y)
    dt, weak = promote(x, y)
    return _elementwise(lambda p, a, b: _ite(p if z3.is_bool(p) else arith('ne', p, Num.const(0)), a, b), [p, x, y], dt, weak)


@fn(jnp)
def select(condlist, choicelist, default=0):
    cs, xs = as_list(condlist), as_list(choicelist)
    if not cs.concrete() or not xs.concrete():
        raise Unsupported('jnp.select')
    cs, xs = cs.values(), [as_t(x) for x in xs.values()]
    if len(cs) != len(xs) or not cs:
        raise ValueError('condlist and choicelist must be of the same length')
    if not all(is_bool(as_t(x)) for x in cs):
        raise Unsupported('jnp.select by numbers')
    r = as_t(default)
    dt = r
    for x in xs:
        d, weak = promote(dt, x)
        dt = SymTensor(SymTuple([]), None, d, weak)
    for p, x in zip(reversed(cs), reversed(xs)):
        r = jnp.where(p, x, r)
    if not ctx().provable(r.dtype.z == dt.dtype.z):
        raise Unsupported('jnp.select between types')
    return r


@fn(lax, 'select')
def lax_select(pred, on_true, on_false):
    p, x, y = as_t(pred), as_t(on_true), as_t(on_false)
    if not is_bool(p):
        if ctx().branch(p.dtype.z != BOOL.z):
            raise TypeError('select `which` must be boolean or int32')
    if not bool(V.SymBoolShape(x.sshape, y.sshape, True)):
        raise TypeError('select cases must have the same shapes')
    if not ctx().branch(p.sshape.rank() == 0):
        if not bool(V.SymBoolShape(p.sshape, x.sshape, True)):
            raise TypeError('select `which` must be scalar or have the same shape as cases')
    if not ctx().branch(x.dtype.z == y.dtype.z):
        if x.static or y.static or x.weak or y.weak:
            raise Unsupported('lax.select with a scalar of another type')
        raise TypeError('select cases must have the same dtypes')
    return _elementwise(_ite, [p, x, y], x.dtype, x.weak and y.weak)


lax.select_n = lambda which, *cases: lax_select(which, cases[1], cases[0]) if len(cases) == 2 else V._unsup('select_n')


@fn(jnp)
def clip(a, a_min=None, a_max=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    t = as_t(a)
    if lo is not None:
        t = maximum(lo, t)
    if hi is not None:
        t = minimum(hi, t)
    return t


@fn(lax, 'clamp')
def lax_clamp(lo, x, hi):
    x = as_t(x)
    for y in (as_t(lo), as_t(hi)):
        if not ctx().provable(y.dtype.z == x.dtype.z):
            raise Unsupported('lax.clamp with other types')
        if y.sshape.items and not rtl_same(y.sshape, x.sshape):
            raise Unsupported('lax.clamp with other shapes')
    return minimum(maximum(x, lo), hi)


def rtl_same(a, b):
    return ctx().provable(V.SymBoolShape(a, b, True).z)


@fn(jnp)
def maximum(a, b):
    return binop('max', a, b)


@fn(jnp)
def minimum(a, b):
    return binop('min', a, b)


for _names, _op in ((('add',), 'add'), (('subtract',), 'sub'), (('multiply',), 'mul'), (('divide', 'true_divide'), 'div'), (('greater',), 'gt'),
                    (('greater_equal',), 'ge'), (('less',), 'lt'), (('less_equal',), 'le'), (('equal',), 'eq'), (('not_equal',), 'ne'),
                    (('bitwise_and',), 'and'), (('bitwise_or',), 'or'), (('bitwise_xor',), 'xor')):
    for _n in _names:
        setattr(jnp, _n, (lambda op: lambda a, b: binop(op, a, b))(_op))
for _n, _op in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('max', 'max'), ('min', 'min'), ('gt', 'gt'), ('ge', 'ge'), ('lt', 'lt'), ('le', 'le'), ('eq', 'eq'), ('ne', 'ne')):
    def _laxop(a, b, _op=_op):
        a, b = as_t(a), as_t(b)
        if (a.static or b.static) and not ctx().provable(a.dtype.z == b.dtype.z):
            raise Unsupported('a lax operation with a number of another type')
        if not ctx().branch(a.dtype.z == b.dtype.z):
            raise TypeError('lax operations need equal types')
        if a.sshape.items and b.sshape.items and not ctx().branch(z3.Or(a.sshape.rank() == 0, b.sshape.rank() == 0)):
            if not ctx().branch(a.sshape.rank() == b.sshape.rank()):
                raise TypeError('lax operations need equal ranks')
            if not V.concrete_shapes(a.sshape, b.sshape) and not bool(V.SymBoolShape(a.sshape, b.sshape, True)):
                raise Unsupported('a lax operation between shapes of one rank')       # unit dimensions stretch
        return binop(_op, a, b)
    setattr(lax, _n, _laxop)


def _as_bool(t):
    t = as_t(t)
    return t if is_bool(t) else unop(lambda e: e if z3.is_bool(e) else arith('ne', e, Num.const(0)), t, BOOL)


@fn(jnp)
def logical_not(a):
    return unop(z3.Not, _as_bool(a), BOOL)


jnp.invert = jnp.bitwise_not = lambda a: ~as_t(a)


@fn(jnp)
def logical_and(a, b):
    return binop('and', _as_bool(a), _as_bool(b))


@fn(jnp)
def logical_or(a, b):
    return binop('or', _as_bool(a), _as_bool(b))


@fn(jnp)
def logical_xor(a, b):
    return binop('xor', _as_bool(a), _as_bool(b))


@fn(jnp, 'abs', 'absolute')
def abs_(a):
    if Num.fp():
        return unop(lambda e: z3.fpAbs(num(e)), as_t(a))
    return unop(lambda e: z3.If(num(e) >= 0, num(e), -num(e)), as_t(a))


@fn(jnp)
def negative(a):
    return -as_t(a)


def _rounding(name, real, mode):
    def f(a, *rest, **k):
        if name == 'round' and not Num.fp() and len(rest) + len(k) == 1 and isinstance((*rest, *k.values())[0], int):
            if not ctx().provable(F_isfloat(as_t(a).dtype.z)):
                raise Unsupported('round of another type')
            s = as_t(10.0 ** (*rest, *k.values())[0])
            return binop('div', f(binop('mul', as_t(a), s)), s)
        if rest or k:
            raise Unsupported(f'{name} to some decimals')
        a = as_t(a)
        if is_bool(a):
            raise Unsupported(f'{name} of truth values')
        if not ctx().provable(F_isfloat(a.dtype.z)):
            raise Unsupported(f'{name} of another type')
        if Num.fp():
            return unop(lambda e: z3.fpRoundToIntegral(mode(), num(e)), a)
        return unop(lambda e: real(num(e)), a)
    setattr(jnp, name, f)


def _floor(e):
    return z3.ToReal(z3.ToInt(e))


def _even(e):
    n = z3.ToInt(e)
    d = e - z3.ToReal(n)
    return z3.ToReal(z3.If(z3.Or(d < z3.RealVal('1/2'), z3.And(d == z3.RealVal('1/2'), n % 2 == 0)), n, n + 1))


_rounding('floor', _floor, z3.RTN)
_rounding('ceil', lambda e: -_floor(-e), z3.RTP)
_rounding('trunc', lambda e: z3.If(e >= 0, _floor(e), -_floor(-e)), z3.RTZ)
_rounding('fix', lambda e: z3.If(e >= 0, _floor(e), -_floor(-e)), z3.RTZ)
_rounding('rint', _even, z3.RNE)
_rounding('round', _even, z3.RNE)


@fn(jnp)
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = as_t(a)
    if not Num.fp():
        return a
    if posinf is not None or neginf is not None:
        raise Unsupported('nan_to_num with other limits')
    big = Num.const(3.4028234663852886e38)
    return unop(lambda e: z3.If(z3.fpIsNaN(num(e)), Num.const(nan), z3.If(z3.fpIsInf(num(e)), z3.If(z3.fpIsNegative(num(e)), z3.fpNeg(big), big), num(e))), a)


@fn(jnp)
def sign(a):
    a = as_t(a)
    if Num.fp() or is_bool(a):
        raise Unsupported('sign')
    return unop(lambda e: z3.If(num(e) > 0, Num.const(1), z3.If(num(e) < 0, Num.const(-1), Num.const(0))), a)


@fn(jnp)
def square(a):
    return binop('mul', a, a)


@fn(jnp)
def isnan(a):
    if Num.fp():
        return unop(lambda e: z3.fpIsNaN(num(e)), as_t(a), BOOL)
    return unop(lambda e: z3.BoolVal(False), as_t(a), BOOL)


@fn(jnp)
def isfinite(a):
    if Num.fp():
        return unop(lambda e: z3.Not(z3.Or(z3.fpIsNaN(num(e)), z3.fpIsInf(num(e)))), as_t(a), BOOL)
    return unop(lambda e: z3.BoolVal(True), as_t(a), BOOL)


@fn(jnp)
def isinf(a):
    if Num.fp():
        return unop(lambda e: z3.fpIsInf(num(e)), as_t(a), BOOL)
    return unop(lambda e: z3.BoolVal(False), as_t(a), BOOL)


@fn(jnp, 'all')
def all_(a, axis=None, **k):
    a = as_t(a)
    if axis is not None or k:
        raise Unsupported('reduction along an axis')
    if ctx().provable(a.sshape.rank() == 0):
        return _as_bool(a)
    return AllOf(a, True)


@fn(jnp, 'any')
def any_(a, axis=None, **k):
    a = as_t(a)
    if axis is not None or k:
        raise Unsupported('reduction along an axis')
    if ctx().provable(a.sshape.rank() == 0):
        return _as_bool(a)
    return AllOf(a, False)


def extreme(a, largest):
    """The largest or smallest entry: no entry is beyond it, and some entry equals it."""
    c, a = ctx(), as_t(a)
    if Num.fp() or is_bool(a):
        raise Unsupported('max or min of such a tensor')
    if c.provable(a.sshape.rank() == 0):
        return a
    filled = V.nonempty_of(a.sshape)
    if not c.branch(filled):
        raise ValueError('zero-size array to reduction operation which has no identity')
    at, sh = V.focus_index(a.sshape), a.sshape.term().sexpr()
    key = ('extreme', largest, sh, z3.simplify(a.elem(at)).sexpr())
    if key not in c.cache:
        m = c.cache[key] = z3.Const(c.name('extreme'), Num.sort())
        ix = V.focus_index(a.sshape, c.name('w'))
        within = lambda i: num(a.elem(i)) <= m if largest else num(a.elem(i)) >= m
        c.add(within(at))
        c.add(z3.And(within(ix), num(a.elem(ix)) == m))
        others = c.cache.setdefault(('allofs', sh), [])
        for ov, op, oix in others:
            c.add(within(oix))
            c.add(z3.Implies(ov, op(ix)))
        others.append((z3.BoolVal(True), within, ix))
    m = c.cache[key]
    return SymTensor(SymTuple([]), lambda i: m, a.dtype)


@fn(jnp, 'max', 'amax')
def max_all(a, axis=None, **k):
    return extreme(a, True) if axis is None and not k else V._unsup('reduction along an axis')


@fn(jnp, 'min', 'amin')
def min_all(a, axis=None, **k):
    return extreme(a, False) if axis is None and not k else V._unsup('reduction along an axis')


@fn(jnp)
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_t(a), as_t(b)
    r, t = Num.const(rtol), Num.const(atol)
    if not isinstance(equal_nan, bool):
        raise Unsupported('isclose with such a flag')
    if Num.fp():
        def g(x, y):
            x, y = num(x), num(y)
            inf = z3.Or(z3.fpIsInf(x), z3.fpIsInf(y))
            if getattr(ctx(), 'opaque_near', False):
                # of finite numbers only that each is near itself; a path that computes with them instead refutes nothing
                near = z3.Function(f'near:{rtol}:{atol}', Num.sort(), Num.sort(), z3.BoolSort())(x, y)
                ctx().add(z3.Implies(z3.fpEQ(x, y), near))
            else:
                near = z3.fpLEQ(z3.fpAbs(arith('sub', x, y)), arith('add', t, arith('mul', r, z3.fpAbs(y))))
            near = z3.And(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))), z3.If(inf, z3.fpEQ(x, y), near))
            return z3.Or(near, z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))) if equal_nan else near
        return _elementwise(g, [a, b], BOOL)

    def f(x, y):
        x, y = num(x), num(y)
        d = z3.If(x >= y, x - y, y - x)
        return d <= t + r * z3.If(y >= 0, y, -y)
    return _elementwise(f, [a, b], BOOL)


@fn(jnp)
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


@fn(jnp)
def array_equal(a, b):
    a, b = as_t(a), as_t(b)
    if not bool(V.SymBoolShape(a.sshape, b.sshape, True)):
        return scalar(z3.BoolVal(False), False, BOOL, False)
    return all_(binop('eq', a, b))


@fn(jnp)
def broadcast_to(a, shape):
    a, shape = as_t(a), as_shape(shape)
    if shape is None:
        raise Unsupported('broadcast_to')
    dummy = SymTensor(shape, lambda ix: z3.BoolVal(True), BOOL)
    try:
        rs, arity, (ma, md) = broadcast(a, dummy)
    except TypeError:
        raise ValueError('Incompatible shapes for broadcasting')
    if not bool(V.SymBoolShape(rs, shape, True)):
        raise ValueError('Incompatible shapes for broadcasting')
    return mk(shape, arity, lambda ix: a.elem(tuple(ix[i] for i in ma)), a.dtype, a.weak)


@fn(jnp)
def reshape(a, shape, *more):
    a = as_t(a)
    shape = as_shape(shape if not more else (shape,) + more)
    if shape is None:
        raise Unsupported('reshape')
    for it in shape.items:
        if it[0] == 'c' and ctx().branch(int_term(it[1]) < 0):
            raise Unsupported('reshape with an inferred dimension')
    ka, kb = keyed(a.sshape.norm()), keyed(shape.norm())
    if len(ka) != len(kb) or not builtins.all(V.same_item(p, q) for p, q in zip(ka, kb)):
        raise Unsupported('reshape that regroups dimensions')
    return mk(shape, len(ka), lambda ix: a.elem(ix), a.dtype, a.weak)


@fn(jnp)
def expand_dims(a, axis):
    a = as_t(a)
    if isinstance(axis, (SymList, list)):
        axis = tuple(as_list(axis).values()) if as_list(axis).concrete() else axis
    if axis == -1 or axis == (-1,):
        return index(a, (Ellipsis, None))
    if axis == 0 or axis == (0,):
        return index(a, (None, Ellipsis))
    if isinstance(axis, tuple) and all(isinstance(i, int) for i in axis) and sorted(axis) == list(range(-len(axis), 0)):
        return index(a, (Ellipsis,) + (None,) * len(axis))
    if isinstance(axis, tuple) and all(isinstance(i, int) for i in axis) and sorted(axis) == list(range(len(axis))):
        return index(a, (None,) * len(axis) + (Ellipsis,))
    if isinstance(axis, SymList) and len(axis.segs) == 1:
        g = axis.segs[0][1]
        k = z3.Int(ctx().name('ax'))
        if ctx().provable(to_z3(g.get(k)) == k + a.sshape.rank()):
            return index(a, SymTuple([('c', Ellipsis), ('rep', None, g.length)]))
    raise Unsupported('expand_dims')


@fn(jnp)
def issubdtype(a, b):
    d = a.dtype if isinstance(a, SymTensor) else as_dtype(a)
    if d is None:
        if isinstance(a, SymTree):
            d = a.as_tensor().dtype
        elif isinstance(a, (float, int)) and not isinstance(a, bool):
            raise TypeError('Cannot interpret as a data type')
        else:
            raise TypeError('Cannot interpret as a data type')
    if b is Floating:
        return SymBool(F_isfloat(d.z))
    if isinstance(b, type) and b in KINDS:
        k = kind_of(d)
        return SymBool(z3.Or(*[k == i for i in KINDS[b]]))
    e = as_dtype(b)
    if e is not None:
        return SymBool(d.z == e.z)
    raise Unsupported('issubdtype of this class')



@fn(jnp, 'ndim')
def ndim_(a):
    return as_t(a).ndim


@fn(jnp, 'shape')
def shape_(a):
    return as_t(a).shape


@fn(jnp)
def result_type(*a):
    ts = [x if isinstance(x, (SymTensor, int, float)) else SymTensor(SymTuple([]), None, V.as_dtype(x), False) if V.as_dtype(x) is not None else None for x in a]
    if not ts or any(x is None for x in ts):
        raise Unsupported('result_type')
    r = as_t(ts[0])
    for x in ts[1:]:
        d, weak = promote(r, as_t(x))
        r = SymTensor(SymTuple([]), None, d, weak)
    return r.dtype


@fn(jnp, 'promote_types')
def promote_types(a, b):
    return result_type(a, b)


@fn(jnp)
def size(a):
    return as_t(a).size


@fn(lax)
def stop_gradient(x):
    """The same values; their derivative is zero, which the marker keeps visible (see the contracts of C28)."""
    c = ctx()
    if isinstance(x, (SymTensor, bool, int, float, SymBool, SymInt)):
        if isinstance(x, SymTensor):
            return handed_on(SymTensor(x.sshape, lambda ix: held(x.elem(ix)), x.dtype, x.weak, x.static), x)
        return x
    if isinstance(x, SymTree) or type(x) in REGISTRY or isinstance(x, (tuple, list, dict, SymList, SymDict)):
        c.events.append(('held', type(x).__name__))
        return tree_util.tree_map(stop_gradient, x)
    c.events.append(('held', type(x).__name__))
    return x


def held(e):
    if z3.is_bool(e) or z3.is_int(e):
        return e
    f = z3.Function('held:' + str(e.sort()), e.sort(), e.sort())
    ctx().add(f(e) == e)
    return f(e)


@fn(lax)
def while_loop(cond_fun, body_fun, init_val):
    h = getattr(ctx(), 'while_hook', None)
    if h is None:
        raise Unsupported('lax.while_loop outside of its contract')
    return h(cond_fun, body_fun, init_val)


lax.expand_dims = lambda a, dims: V._unsup('lax.expand_dims')
lax.broadcast_in_dim = lambda *a, **k: V._unsup('lax.broadcast_in_dim')


@fn(jax)
def jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


jnp.vectorize = jax.vmap = lambda f, *a, **k: (lambda *b, **d: V._unsup('vmap'))


# -------------------------------------------------------------------------- tree_util
REGISTRY = {}


class PyTreeDef:
    pass


tree_util.PyTreeDef = SymTreedef


@fn(tree_util)
def register_pytree_node(cls, flatten_func, unflatten_func):
    REGISTRY[cls] = (flatten_func, unflatten_func, False)


@fn(tree_util)
def register_pytree_with_keys(cls, flatten_with_keys, unflatten_func, flatten_func=None):
    REGISTRY[cls] = (flatten_with_keys, unflatten_func, True)


@fn(tree_util)
def register_pytree_node_class(cls):
    REGISTRY[cls] = (lambda x: x.tree_flatten(), lambda aux, ch: cls.tree_unflatten(aux, ch), False)
    return cls


@fn(tree_util)
def register_pytree_with_keys_class(cls):
    REGISTRY[cls] = (lambda x: x.tree_flatten_with_keys(), lambda aux, ch: cls.tree_unflatten(aux, ch), True)
    return cls


tree_util.Partial = lambda f, *a, **k: (lambda *b, **d: f(*a, *b, **{**k, **d}))


def skeleton(x, is_leaf=None):
    """(skeleton, list of leaf segments) of a value."""
    if is_leaf is not None and not isinstance(x, SymTree) and bool(is_leaf(x)):
        return ('leaf',), [('c', x)]
    if isinstance(x, V.Maybe):
        x = x.vc_resolve()
    if x is None:
        return ('none',), []
    if isinstance(x, SymTree):
        if is_leaf is not None:
            h = getattr(type(x), 'leaf_segs', None)
            if h is None:
                raise Unsupported('is_leaf on an arbitrary tree')
            return ('sym', x.td), h(x, is_leaf)
        src = x.__dict__.get('src')
        vals = [src.get(k) for k in getattr(src, 'sampled', ())]
        if vals and builtins.any(v is None or isinstance(v, (SymList, SymDict, SymTuple, SymTree, tuple, list, dict)) or type(v) in REGISTRY for v in vals):
            if not builtins.all(v is None for v in vals):
                raise Unsupported('a tree whose leaves are trees')
            return ('sym', F_blank(x.td)), []             # None is no leaf: they have vanished
        return ('sym', x.td), [('g', x.group())]
    if isinstance(x, SymDict):
        ks = x.concrete_keys()
        if ks is not None and builtins.all(isinstance(k, str) for k in ks):
            ks = sorted(ks)
            parts = [skeleton(x.lookup(k), is_leaf) for k in ks]
            return ('node', SymDict, tuple(ks), tuple(p[0] for p in parts)), [s for p in parts for s in p[1]]
        if is_leaf is not None:
            raise Unsupported('is_leaf on a symbolic dict')
        snap = x.copy()
        n = z3.Int(ctx().name('dictleaves'))
        ctx().add(n >= 0)
        g = Group(n, lambda k: V._unsup('leaf of a symbolic dict'), 'dict')
        g.dict = snap
        return ('symdict', snap, g), [('g', g)]
    if isinstance(x, (dict,)):
        ks = sorted(x)
        parts = [skeleton(x[k], is_leaf) for k in ks]
        return ('node', dict, tuple(ks), tuple(p[0] for p in parts)), [s for p in parts for s in p[1]]
    if isinstance(x, (SymList, LazySeq, zip)) or type(x) in (list, tuple):
        cls = tuple if isinstance(x, tuple) else SymList
        segs = as_list(x).segs
        out, leaves = [], []
        for s in segs:
            if s[0] == 'c':
                k, lv = skeleton(s[1], is_leaf)
                out.append(k)
                leaves += lv
            else:
                if getattr(s[1], 'names', None) is not None:
                    raise Unsupported('flattening a view of a dict')
                out.append(('group', s[1]))
                leaves.append(s)
        return ('node', cls, None, tuple(out)), leaves
    if isinstance(x, SymTuple):
        raise Unsupported('flattening a symbolic tuple')
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        parts = [skeleton(v, is_leaf) for v in x]
        return ('node', type(x), None, tuple(p[0] for p in parts)), [s for p in parts for s in p[1]]
    reg = REGISTRY.get(type(x))
    if reg:
        children, aux = reg[0](x)
        ch = as_list(children)
        if not ch.concrete():
            # the leaves of an inner tree as children
            if reg[2]:
                raise Unsupported('keyed children that are symbolic')
            out, leaves = [], []
            for s in ch.segs:
                if s[0] == 'c':
                    k, lv = skeleton(s[1], is_leaf)
                    out.append(k)
                    leaves += lv
                else:
                    out.append(('group', s[1]))
                    leaves.append(s)
            return ('node', type(x), aux, tuple(out)), leaves
        vals = ch.values()
        if reg[2]:
            vals = [builtins.tuple(as_list(v).values())[1] for v in vals]
        parts = [skeleton(v, is_leaf) for v in vals]
        return ('node', type(x), aux, tuple(p[0] for p in parts)), [s for p in parts for s in p[1]]
    return ('leaf',), [('c', x)]


def rebuild(sk, segs):
    """Inverse of skeleton on a list of segments, consumed from the front."""
    k = sk[0]
    if k == 'leaf':
        if not segs:
            raise ValueError('Too few leaves for PyTreeDef')
        s = segs.pop(0)
        if s[0] != 'c':
            g = s[1]
            if not ctx().branch(g.length > 0):
                return rebuild(sk, segs)
            segs.insert(0, ('g', Group(g.length - 1, lambda j: g.get(j + 1), g.owner)))
            return g.get(z3.IntVal(0))
        return s[1]
    if k == 'none':
        return None
    if k in ('sym', 'symdict', 'group'):
        n = V.F_nleaves(sk[1]) if k == 'sym' else (sk[2] if k == 'symdict' else sk[1]).length
        if not segs and ctx().branch(n == 0):
            g = Group(z3.IntVal(0), lambda j: V._unsup('leaf of an empty tree'), 'empty')
        else:
            if not segs:
                raise ValueError('Too few leaves for PyTreeDef')
            s = segs.pop(0)
            if s[0] == 'c':
                if ctx().branch(n == 0):
                    segs.insert(0, s)
                    g = Group(z3.IntVal(0), lambda j: V._unsup('leaf of an empty tree'), 'empty')
                elif ctx().branch(n == 1):
                    g = Group(z3.IntVal(1), lambda j: s[1], 'one')
                else:
                    raise Unsupported('leaves of a tree given one by one')
            else:
                g = s[1]
            if not ctx().branch(g.length == n):
                raise ValueError('wrong number of leaves for PyTreeDef')
        if k == 'sym':
            t = SymTree(sk[1], g.get)
            t.src = g
            return t
        if k == 'group':
            return g
        return SymDict(RebuiltDict(sk[1], g), [])
    out = [rebuild(x, segs) for x in sk[-1]]
    cls, aux = sk[1], sk[2]
    if cls in (SymDict, dict):
        d = SymDict()
        for key, v in zip(aux, out):
            d[key] = v
        return d
    if cls in (SymList, tuple, list):
        l = SymList([('g', v) if x[0] == 'group' else ('c', v) for x, v in zip(sk[-1], out)])
        return l if cls is not tuple else builtins.tuple(l.values()) if l.concrete() else V._unsup('symbolic tuple')
    if hasattr(cls, '_fields'):
        return cls(*out)
    reg = REGISTRY[cls]
    l = SymList([('g', v) if x[0] == 'group' else ('c', v) for x, v in zip(sk[-1], out)])
    return reg[1](aux, builtins.tuple(l.values()) if l.concrete() else l)


class RebuiltDict:
    """Contents of a dict rebuilt from its structure and a list of leaves."""
    def __init__(self, d, g):
        self.d, self.g, self.label = d, g, 'rebuilt'

    def has(self, t):
        return self.d.has_term(t)

    def card(self):
        return int_term(self.d.length())

    def val(self, t):
        v = self.d.lookup(SymName(t))
        g = self.g
        if getattr(g, 'dict', None) is not None:     # the very leaves: the same content
            return v
        f = getattr(g, 'mapped', None)
        if f is not None:
            sk, segs = skeleton(v)
            return rebuild(sk, [('c', f(s[1])) if s[0] == 'c' else ('g', Group(s[1].length, (lambda gg: lambda k: f(gg.get(k)))(s[1]), s[1].owner)) for s in segs])
        raise Unsupported('leaves of a symbolic dict')


@fn(tree_util)
def tree_flatten(tree, is_leaf=None):
    if getattr(type(tree), 'is_leaf_value', False):
        return SymList([('c', tree)]), SymTreedef(('leaf',))
    sk, segs = skeleton(tree, is_leaf)
    return SymList(segs), SymTreedef(sk)


@fn(tree_util)
def tree_leaves(tree, is_leaf=None):
    return tree_flatten(tree, is_leaf)[0]


@fn(tree_util)
def tree_structure(tree, is_leaf=None):
    return tree_flatten(tree, is_leaf)[1]


@fn(tree_util)
def tree_flatten_with_path(tree, is_leaf=None):
    sk, segs = skeleton(tree, is_leaf)
    return SymList([('c', (('path',), s[1])) if s[0] == 'c' else ('g', Group(s[1].length, (lambda g: lambda k: (('path',), g.get(k)))(s[1]), s[1].owner))
                    for s in segs]), SymTreedef(sk)


@fn(tree_util)
def tree_unflatten(treedef, leaves):
    if not isinstance(treedef, SymTreedef):
        raise TypeError('not a PyTreeDef')
    segs = list(as_list(leaves).segs)
    if treedef.skel[0] == 'sym' and len(segs) > 1:
        raise Unsupported('leaves of a tree in several pieces')
    r = rebuild(treedef.skel, segs)
    if segs:
        for s in segs:
            if s[0] == 'c' or ctx().branch(s[1].length > 0):
                raise ValueError('Too many leaves for PyTreeDef')
    return r


def up_to(sk, x):
    """The values of x at the leaves of a structure known in full, whatever they are (flatten_up_to): None when the structure or x is not known."""
    k = sk[0]
    if k == 'leaf':
        return [x]
    if isinstance(x, V.Maybe):
        return None
    if k == 'none':
        return []               # anything is accepted in the place of None
    if k != 'node' or isinstance(x, (SymTree, SymTuple)):
        return None
    if sk[1] in (SymDict, dict):
        if not isinstance(x, (SymDict, dict)):
            raise ValueError('Expected dict')
        ks = x.concrete_keys() if isinstance(x, SymDict) else builtins.list(x)
        if ks is None or not builtins.all(isinstance(n, str) for n in ks):
            return None
        if sorted(ks) != builtins.list(sk[2]):
            raise ValueError('Dict key mismatch')
        vals = [x.lookup(n) if isinstance(x, SymDict) else x[n] for n in sk[2]]
    elif sk[1] in (SymList, tuple):
        if type(x) not in ((tuple,) if sk[1] is tuple else (SymList, list)):
            if isinstance(x, (SymList, LazySeq, zip)):
                return None
            raise ValueError('Expected a ' + ('tuple' if sk[1] is tuple else 'list'))
        l = as_list(x)
        if not l.concrete() or builtins.any(p[0] == 'group' for p in sk[3]):
            return None
        vals = builtins.list(l.values())
        if len(vals) != len(sk[3]):
            raise ValueError('Arity mismatch')
    else:
        return None
    out = []
    for p, v in builtins.zip(sk[3], vals):
        u = up_to(p, v)
        if u is None:
            return None
        out += u
    return out


@fn(tree_util)
def tree_map(f, tree, *rest, is_leaf=None):
    import rtl
    sk, segs = skeleton(tree, is_leaf)
    others = []
    for r in rest:
        up = up_to(sk, r)
        if up is not None:
            others.append([('c', v) for v in up])
            continue
        sk2, segs2 = skeleton(r, is_leaf)
        if not bool(V.skel_eq(sk, sk2)):
            if 'sym' in (sk[0], sk2[0]) and sk2[0] != sk[0]:
                raise Unsupported('tree_map over trees of different structure')
            raise ValueError('Mismatch in tree structure')
        others.append(segs2)
    if len({len(o) for o in others} | {len(segs)}) > 1:
        raise Unsupported('tree_map over trees of different structure')
    out = []
    for i, s in enumerate(segs):
        row = [o[i] for o in others]
        if s[0] == 'c':
            out.append(('c', f(s[1], *[r[1] for r in row])))
        elif getattr(s[1], 'dict', None) is not None:
            if row:
                raise Unsupported('tree_map over several symbolic dicts')
            g = Group(s[1].length, lambda k: V._unsup('leaf of a symbolic dict'), 'dict')
            g.mapped = f
            out.append(('g', g))
        else:
            g = Group(s[1].length, (lambda g, row: lambda k: (g.get(k),) + builtins.tuple(r[1].get(k) for r in row))(s[1], row), s[1].owner)
            out += rtl.map_group('tree_map', lambda a: f(*a), g)
    return rebuild(sk, out)


jax.tree_map = tree_map


@fn(tree_util)
def tree_all(tree):
    import rtl
    return rtl.all_(tree_leaves(tree))


@fn(tree_util)
def treedef_is_leaf(td):
    return td.is_leaf()


@fn(tree_util)
def treedef_children(td):
    return td.children()


@fn(tree_util)
def all_leaves(iterable, is_leaf=None):
    for v in as_list(iterable).segs:
        if v[0] != 'c':
            raise Unsupported('all_leaves of leaves of any number')
        if skeleton(v[1], is_leaf)[0] != ('leaf',):
            return False
    return True


# --------------------------------------------------------------------------- checkify
class JaxRuntimeError(ValueError):
    pass


checkify.JaxRuntimeError = JaxRuntimeError


class Err(Opaque):
    def __init__(self, checks):
        self.checks = checks

    def throw(self):
        if ctx().checks is not None:          # thrown while an outer function is checked: a check of that function
            ctx().checks += self.checks
            return
        for z in self.checks:
            if not ctx().branch(z):
                raise JaxRuntimeError('a check failed')

    def get(self):
        for z in self.checks:
            if not ctx().branch(z):
                return 'a check failed'
        return None


@fn(checkify)
def check(pred, msg, *a, **k):
    c = ctx()
    if isinstance(pred, SymTensor):
        if not c.provable(pred.sshape.rank() == 0):
            raise TypeError('check takes a scalar pred')
        z = pred.elem(())
        if not z3.is_bool(z):
            raise TypeError('check takes a boolean pred')
    elif isinstance(pred, V.SymBoolShape):
        z = z3.BoolVal(bool(pred))       # so that equal shapes are unified
    elif isinstance(pred, (bool, SymBool)):
        z = to_z3(pred)
    else:
        raise TypeError('check takes a boolean scalar pred')
    if c.checks is None:
        if not c.branch(z):
            raise JaxRuntimeError('a check failed')
        return
    c.checks.append(z)


@fn(checkify, 'debug_check')
def debug_check(pred, msg, *a, **k):
    raise Unsupported('debug_check')


checkify.user_checks, checkify.nan_checks, checkify.index_checks, checkify.div_checks = (frozenset([x]) for x in ('user', 'nan', 'index', 'div'))
checkify.float_checks = checkify.nan_checks | checkify.div_checks
checkify.automatic_checks = checkify.float_checks | checkify.index_checks
checkify.all_checks = checkify.automatic_checks | checkify.user_checks


@fn(checkify, 'checkify')
def checkify_(f, errors=checkify.user_checks):
    if not isinstance(errors, frozenset):
        raise Unsupported('the kinds of checks')

    def wrapped(*a, **k):
        c = ctx()
        outer, c.checks = c.checks, []
        try:
            out = f(*a, **k)
            if 'user' not in errors and c.checks:
                raise ValueError('a check was not functionalised')
            c.checks += [z3.Bool(f'no {e} error') for e in sorted(errors - {'user'})]      # of the operations of f
            return Err(c.checks), out
        finally:
            c.checks = outer
    return wrapped


@fn(checkify)
def check_error(err):
    err.throw()


# ------------------------------------------------------------------------------- flax
class Module:
    def is_mutable_collection(self, col):
        return self.vc_mutable(col)

    @property
    def scope(self):
        return Scope(self)

    def is_initializing(self):
        """A flag of the call, unrelated to which collections are mutable."""
        return V.SymBool(z3.Bool('is initializing'))


class Scope:
    """The scope of a module: of what is mutable besides the parameters nothing is known."""
    def __init__(self, module):
        self.module = module

    def is_mutable_collection(self, col):
        return self.module.vc_mutable(col)

    @property
    def mutable(self):
        some = z3.Bool('some collection is mutable')
        ctx().add(z3.Implies(self.module.vc_mutable("params").z, some))
        return V.SymBool(some)


nn.Module = Module
nn.compact = lambda f: f
nn.nowrap = lambda f: f
flax.linen = nn

def on_host(name, f):
    """A function of numpy that means the same as its namesake, but asks for the contents of its arguments."""
    def host(*a, **k):
        if any(isinstance(x, SymTensor) and (not x.static or x.traced) for x in [*a, *k.values()]):
            ctx().events.append(('content-branch', f'numpy.{name} of a tensor'))
        return f(*a, **k)
    return host


for _n in ('where', 'zeros_like', 'ones_like', 'asarray', 'array', 'all', 'any', 'isnan', 'isfinite', 'isinf', 'isclose', 'allclose', 'array_equal',
           'logical_and', 'logical_or', 'logical_not', 'equal', 'not_equal', 'greater', 'greater_equal', 'less', 'less_equal', 'maximum', 'minimum', 'clip',
           'abs', 'multiply', 'add', 'subtract', 'max', 'min', 'broadcast_to', 'expand_dims', 'reshape'):
    if _n in vars(jnp) and _n not in vars(numpy):
        setattr(numpy, _n, on_host(_n, vars(jnp)[_n]))

jax.numpy, jax.lax, jax.tree_util = jnp, lax, tree_util
experimental = Mod('jax.experimental')
experimental.checkify = checkify
jax.experimental = experimental
jax.Array = SymTensor
core_ = Mod('jax.core')
jax.core = core_

MODULES = {'jax': jax, 'jax.numpy': jnp, 'jax.lax': lax, 'jax.tree_util': tree_util, 'jax.experimental': experimental,
           'jax.experimental.checkify': checkify, 'jax.core': core_, 'flax': flax, 'flax.linen': nn, 'numpy': numpy}


def install():
    for n, m in MODULES.items():
        if n in ('jax', 'jax.experimental', 'flax'):
            m.__path__ = []
        sys.modules[n] = m
