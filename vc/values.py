"""Symbolic values: scalars, shapes, tensors, names, containers.

Contents of tensors are closures from positions to solver terms; a position is a tuple with one entry per shape
segment.  Ranks are not bounded: a shape segment stands for any number of dimensions.
"""
import builtins
import z3
from core import ctx, to_z3, Unsupported, PathEnd, Restart

Shape = z3.DeclareSort('Shape')
Idx = z3.DeclareSort('Idx')
DT = z3.DeclareSort('DType')
NameS = z3.DeclareSort('Name')
TreeS = z3.DeclareSort('Tree')
TDS = z3.DeclareSort('Treedef')

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F_rank = z3.Function('rank', Shape, Int)
F_dim = z3.Function('dim', Shape, Int, Int)
F_cat = z3.Function('cat', Shape, Shape, Shape)
F_ones = z3.Function('ones', Int, Shape)
F_dim1 = z3.Function('single', Int, Shape)
F_isfloat = z3.Function('is_floating', DT, Bool)
F_nleaves = z3.Function('nleaves', TDS, Int)
F_td = z3.Function('treedef', TreeS, TDS)
Nil = z3.Const('scalar_shape', Shape)


# --------------------------------------------------------------------- numbers
class Num:
    """Arithmetic on tensor contents: mathematical reals, or IEEE single precision."""
    FP = z3.Float32()
    RM = z3.RNE()

    @staticmethod
    def fp():
        return ctx().mode == 'fp'

    @staticmethod
    def sort():
        return Num.FP if Num.fp() else Real

    @staticmethod
    def const(v):
        if isinstance(v, bool):
            v = int(v)
        if Num.fp():
            return z3.FPVal(v, Num.FP)
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('nan or inf in real arithmetic')
        return z3.RealVal(repr(v) if isinstance(v, float) else v)


def is_fp(t):
    return z3.is_fp(t)


def num(t):
    """A solver term as a number: booleans count 0/1, integers are embedded."""
    if z3.is_bool(t):
        return z3.If(t, Num.const(1), Num.const(0))
    if Num.fp():
        if z3.is_int(t):
            return z3.fpToFP(Num.RM, z3.ToReal(t), Num.FP)
        if z3.is_real(t):
            return z3.fpToFP(Num.RM, t, Num.FP)
        return t
    if z3.is_int(t):
        return z3.ToReal(t)
    return t


def arith(op, a, b):
    if op in ('and', 'or', 'xor'):
        if z3.is_bool(a) and z3.is_bool(b):
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        raise Unsupported('bitwise operation on numbers')
    if op in ('eq', 'ne') and z3.is_bool(a) and z3.is_bool(b):
        return a == b if op == 'eq' else a != b
    if z3.is_int(a) and z3.is_int(b) and op not in ('div',) and not Num.fp():
        pass
    else:
        a, b = num(a), num(b)
    if z3.is_fp(a):
        return {'add': lambda: z3.fpAdd(Num.RM, a, b), 'sub': lambda: z3.fpSub(Num.RM, a, b),
                'mul': lambda: z3.fpMul(Num.RM, a, b), 'div': lambda: z3.fpDiv(Num.RM, a, b),
                'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b),
                'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)),
                'max': lambda: z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(z3.fpGEQ(a, b), a, b))),
                'min': lambda: z3.If(z3.fpIsNaN(a), a, z3.If(z3.fpIsNaN(b), b, z3.If(z3.fpLEQ(a, b), a, b)))}[op]()
    if op == 'div':
        return num(a) / num(b)
    return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'lt': lambda: a < b, 'le': lambda: a <= b,
            'gt': lambda: a > b, 'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b,
            'max': lambda: z3.If(a >= b, a, b), 'min': lambda: z3.If(a <= b, a, b)}[op]()


class Opaque:
    """Base: anything a class does not define is outside the subset."""
    vc_origin = None
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{type(self).__name__}.{n}')

    def __format__(self, spec):
        return f'<{type(self).__name__}>'

    def __str__(self):
        return f'<{type(self).__name__}>'

    __repr__ = __str__


class SymBool(Opaque):
    def __init__(self, z, content=None):
        self.z = to_z3(z)
        self.content = content          # set when the truth value depends on tensor contents

    def __bool__(self):
        if self.content and not z3.is_true(z3.simplify(self.z)) and not z3.is_false(z3.simplify(self.z)):
            ctx().events.append(('content-branch', self.content))
        return ctx().branch(self.z)

    def _b(self, o):
        if isinstance(o, (bool, SymBool)):
            return to_z3(o)
        return None

    def __and__(self, o):
        if isinstance(o, SymTensor):
            return NotImplemented
        return SymBool(z3.And(self.z, self._b(o)), self.content or getattr(o, 'content', None))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymTensor):
            return NotImplemented
        return SymBool(z3.Or(self.z, self._b(o)), self.content or getattr(o, 'content', None))
    __ror__ = __or__

    def __invert__(self):
        if self.content:
            return SymBool(z3.Not(self.z), self.content)
        raise Unsupported('~ on a python bool')     # -2 or -1 in python

    def __eq__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(self.z == b, self.content or getattr(o, 'content', None))

    def __ne__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(self.z != b, self.content or getattr(o, 'content', None))

    __hash__ = object.__hash__


def _int(o):
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, SymInt):
        return o.z
    return None


def mkint(z):
    z = z3.simplify(z) if not isinstance(z, int) else z3.IntVal(z)
    return z.as_long() if z3.is_int_value(z) else SymInt(z)


class SymInt(Opaque):
    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        b = _int(o)
        if b is None:
            return NotImplemented
        return mkint(f(self.z, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, tuple):
            return SymTuple([('rep', o[0], self.z)]) if len(o) == 1 else _unsup('tuple repetition')
        if isinstance(o, SymList):
            return o * self
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f):
        b = _int(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.z, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __bool__(self): return ctx().branch(self.z != 0)
    __hash__ = object.__hash__

    def __index__(self):
        raise Unsupported('a symbolic integer where a concrete one is needed')


def _unsup(w):
    raise Unsupported(w)


def int_term(o):
    t = _int(o)
    if t is None:
        raise Unsupported(f'{type(o).__name__} where an integer is needed')
    return t


# ------------------------------------------------------------------ names, dtypes
LITERALS = {}


def name_term(n):
    if isinstance(n, SymName):
        return n.z
    if isinstance(n, str):
        if n not in LITERALS:
            LITERALS[n] = z3.Const('name:' + n, NameS)
        c = ctx()
        seen = c.cache.setdefault('literals', {})
        if n not in seen:
            for m in seen.values():
                c.add(m != LITERALS[n])
            seen[n] = LITERALS[n]
        return LITERALS[n]
    return None


class SymName(Opaque):
    """An arbitrary accumulator name."""
    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        t = name_term(o)
        return SymBool(self.z == t) if t is not None else False

    def __ne__(self, o):
        t = name_term(o)
        return SymBool(self.z != t) if t is not None else True

    def __hash__(self):
        return 7

    def _part(self, kind, o):
        t = name_term(o)
        if t is None:
            raise TypeError('expected str')
        f = z3.Function(kind, NameS, NameS, Bool)
        ctx().add(z3.Implies(self.z == t, f(self.z, t)))      # a string starts with itself, and nothing else is said
        return SymBool(f(self.z, t))

    def startswith(self, o): return self._part('starts with', o)
    def endswith(self, o): return self._part('ends with', o)
    def __contains__(self, o): return builtins.bool(self._part('contains', o))

    def _derived(self, kind):
        # another name, of which only this is said: doing it twice changes nothing
        f = z3.Function(kind, NameS, NameS)
        ctx().add(f(f(self.z)) == f(self.z))
        return SymName(f(self.z))

    def strip(self): return self._derived('strip')
    def lstrip(self): return self._derived('lstrip')
    def rstrip(self): return self._derived('rstrip')
    def lower(self): return self._derived('lower')
    def upper(self): return self._derived('upper')
    def casefold(self): return self._derived('casefold')


class Maybe(Opaque):
    """A plain python value that may be absent (None); which of the two is settled once somebody asks."""
    class Value(str):
        def __bool__(self):
            return ctx().branch(z3.Bool('empty:' + self))

    def __init__(self, label):
        self.label, self.value = label, Maybe.Value(label)

    def vc_resolve(self):
        return None if ctx().branch(z3.Bool('absent:' + self.label)) else self.value

    def __eq__(self, o):
        if isinstance(o, Maybe):
            o = o.vc_resolve()
        v = self.vc_resolve()
        if v is None or o is None or v is o:
            return v is o
        if isinstance(o, str):
            return SymBool(z3.Bool(f'{self.label} is {str(o)}'))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __bool__(self):
        v = self.vc_resolve()
        return v is not None and bool(v)

    def __hash__(self):
        return 13

    def __repr__(self):
        return self.label


class DKind(Opaque):
    """numpy's letter for the kind of a dtype: the floating types outside of numpy (bfloat16, float8) have V."""
    def __init__(self, z):
        self.z = z

    def vc_is(self, k):
        fl, ext = F_isfloat(self.z), z3.Function('dtype from outside numpy', DT, z3.BoolSort())(self.z)
        for n, d in DTYPES.items():
            if n != 'bfloat16':
                ctx().add(z3.Implies(self.z == d.z, z3.Not(ext)))
            else:
                ctx().add(z3.Implies(self.z == d.z, ext))
        own = {n: DTYPES[n].z for n in DTYPES}
        if k == 'f':
            return z3.And(fl, z3.Not(ext))
        if k == 'b':
            return self.z == BOOL.z
        if k == 'V':
            return ext
        if k in ('i', 'u', 'c'):
            f = z3.Function('dtype kind ' + k, DT, z3.BoolSort())(self.z)
            ctx().add(z3.Implies(f, z3.Not(z3.Or(fl, ext, self.z == BOOL.z))))
            if 'int32' in own:
                ctx().add(z3.Implies(self.z == own['int32'], f if k == 'i' else z3.Not(f)))
            return f
        return None

    def __eq__(self, o):
        if isinstance(o, DKind):
            raise Unsupported('comparison of two kinds of dtype')
        r = self.vc_is(o) if isinstance(o, str) else False
        if r is None:
            raise Unsupported('kind of dtype')
        return SymBool(r) if z3.is_expr(r) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.z)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 12


class SymDType(Opaque):
    def __new__(cls, z, weak=False):
        if z3.is_expr(z):
            return object.__new__(cls)
        d = as_dtype(z)          # jnp.dtype('bool')
        if d is None:
            raise Unsupported('dtype of ' + repr(z)[:40])
        return d

    def __init__(self, z, weak=False):
        if z3.is_expr(z):
            self.z, self.weak = z, weak

    @property
    def type(self):
        return self

    @property
    def itemsize(self):
        """A property of the type; different types may agree on it."""
        return mkint(F_itemsize(self.z))

    @property
    def kind(self):
        return DKind(self.z)

    @property
    def name(self):
        raise Unsupported('the name of a dtype')

    def __eq__(self, o):
        o = as_dtype(o)
        return False if o is None else SymBool(self.z == o.z)

    def __ne__(self, o):
        o = as_dtype(o)
        return True if o is None else SymBool(self.z != o.z)

    def __hash__(self):
        return 11

    def __call__(self, x):
        from fakes import jnp
        return jnp.asarray(x, dtype=self)


def _mkd(n, fl):
    d = SymDType(z3.Const('dtype:' + n, DT))
    d.floating = fl
    return d


DTYPES = {n: _mkd(n, n in ('float16', 'float32', 'float64', 'bfloat16'))
          for n in ('float32', 'float16', 'bfloat16', 'float64', 'bool', 'int32', 'int64', 'uint8', 'int8', 'int16', 'uint16', 'uint32', 'complex64')}
F32, BOOL, I32 = DTYPES['float32'], DTYPES['bool'], DTYPES['int32']


F_itemsize = z3.Function('itemsize', DT, Int)
SIZES = {'float32': 4, 'float16': 2, 'bfloat16': 2, 'float64': 8, 'bool': 1, 'int32': 4, 'int64': 8, 'uint8': 1, 'int8': 1, 'int16': 2, 'uint16': 2, 'uint32': 4, 'complex64': 8}


def dtype_axioms(c):
    for n, k in SIZES.items():
        c.add(F_itemsize(DTYPES[n].z) == k)
    ds = list(DTYPES.values())
    c.add(z3.Distinct(*[d.z for d in ds]))
    for d in ds:
        c.add(F_isfloat(d.z) if d.floating else z3.Not(F_isfloat(d.z)))


def as_dtype(o):
    if isinstance(o, SymDType):
        return o
    if o is bool:
        return BOOL
    if o is float:
        return F32
    if o is int:
        return I32
    if isinstance(o, str) and o in DTYPES:
        return DTYPES[o]
    return None


# ------------------------------------------------------------------------ shapes
F_size = z3.Function('n_elements', z3.DeclareSort('Shape'), z3.IntSort())


class Seg:
    """A run of dimensions of unknown number and sizes."""
    def __init__(self, z, label=None):
        self.z = z
        self.label = label or str(z)

    def __repr__(self):
        return self.label


def from_start(i, n):
    '''The index i of a sequence of n items, counted from its start.'''
    i = z3.simplify(i)
    if ctx().provable(i >= 0):
        return i
    if ctx().provable(i < 0):
        return z3.simplify(i + n)
    return z3.simplify(z3.If(i < 0, i + n, i))


class SymTuple(Opaque):
    """A tuple with symbolic parts.  Items: ('c', value), ('rep', value, count term), ('seg', Seg)."""
    def __init__(self, items):
        out = []
        for it in items:
            if it[0] == 'rep':
                k = z3.simplify(it[2])
                if z3.is_int_value(k):
                    out += [('c', it[1])] * max(0, k.as_long())
                    continue
                it = ('rep', it[1], k)
            if it[0] == 'rep' and out and out[-1][0] == 'rep' and out[-1][1] is it[1]:
                out[-1] = ('rep', it[1], z3.simplify(out[-1][2] + it[2]))
                continue
            out.append(it)
        self.items = out

    # ---- canonical segments (aliases resolved)
    def norm(self):
        c = ctx()
        out = []
        for it in self.items:
            if it[0] == 'seg':
                a = c.alias.get(it[1].label)
                if a is not None:
                    out += a.norm()
                    continue
            out.append(it)
        # merge unit dimensions
        res = []
        for it in out:
            if it[0] == 'c' and isinstance(it[1], int) and it[1] == 1:
                it = ('rep', 1, z3.IntVal(1))
            if it[0] == 'rep' and res and res[-1][0] == 'rep' and res[-1][1] == it[1]:
                res[-1] = ('rep', it[1], z3.simplify(res[-1][2] + it[2]))
            else:
                res.append(it)
        fin = []
        for it in res:
            if it[0] == 'rep':
                if ctx().provable(it[2] <= 0):
                    continue
            fin.append(it)
        return fin

    def term(self):
        """Right-nested canonical term of sort Shape; rank facts are added on the way."""
        return shape_term(self.norm())

    def rank(self):
        r = z3.IntVal(0)
        for it in self.norm():
            if it[0] == 'seg':
                ctx().add(F_rank(it[1].z) >= 1)
                r = r + F_rank(it[1].z)
            elif it[0] == 'rep':
                r = r + it[2]
            else:
                r = r + 1
        return z3.simplify(r)

    def length(self):
        return mkint(self.rank())

    # ---- python protocol
    def _other(self, o):
        if isinstance(o, SymTuple):
            return o
        if isinstance(o, tuple):
            return SymTuple([('c', x) for x in o])
        return None

    def __eq__(self, o):
        o = self._other(o)
        return False if o is None else SymBoolShape(self, o, True)

    def __ne__(self, o):
        o = self._other(o)
        return True if o is None else SymBoolShape(self, o, False)

    def __hash__(self):
        return 13

    def __add__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else SymTuple(self.items + o.items)

    def __radd__(self, o):
        o = self._other(o)
        return NotImplemented if o is None else SymTuple(o.items + self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        its = self.norm()
        if isinstance(i, int):
            if i >= 0 and all(x[0] == 'c' for x in its[:i + 1]) and len(its) > i:
                return its[i][1]
            if i < 0 and len(its) >= -i and all(x[0] == 'c' for x in its[i:]):
                return its[i][1]
        return self.at(int_term(i))

    def at(self, i):
        """Dimension at a symbolic position."""
        c = ctx()
        r = self.rank()
        i = from_start(i, r)
        if not c.branch(z3.And(i >= 0, i < r)):
            raise IndexError('tuple index out of range')
        off, val, parts = z3.IntVal(0), None, []
        for it in self.norm():
            n = F_rank(it[1].z) if it[0] == 'seg' else it[2] if it[0] == 'rep' else z3.IntVal(1)
            v = F_dim(it[1].z, i - off) if it[0] == 'seg' else int_term(it[1])
            if it[0] == 'seg':
                c.add(F_dim(it[1].z, i - off) >= 0)
            parts.append((off, off + n, v))
            off = off + n
        val = parts[-1][2]
        for lo, hi, v in reversed(parts[:-1]):
            val = z3.If(i < hi, v, val)
        return mkint(val)

    def _slice(self, s):
        if s.step == -1 and s.start is None and s.stop is None:
            its = self.norm()
            if all(x[0] == 'c' for x in its):
                return SymTuple(its[::-1])
            return RevTuple(self)
        if s.step not in (None, 1):
            raise Unsupported('stepped slice of a tuple')
        c = ctx()
        r = self.rank()

        def pos(x, default):
            if x is None:
                return default
            x = int_term(x)
            x = z3.simplify(x)
            if not c.branch(x >= 0):
                x = z3.simplify(x + r)
                if not c.branch(x >= 0):
                    return z3.IntVal(0)
                return x
            if not c.branch(x <= r):
                return r
            return x
        lo, hi = pos(s.start, z3.IntVal(0)), pos(s.stop, r)
        if c.provable(lo == 0) and c.provable(hi == r):
            return self
        head, _ = self.split(hi)
        _, mid = head.split(lo)
        return mid

    def split(self, n):
        """(first n dimensions, the rest); 0 <= n <= rank on this path."""
        c = ctx()
        if c.provable(n == 0):
            return SymTuple([]), self
        its = self.norm()
        off = z3.IntVal(0)
        for k, it in enumerate(its):
            ln = F_rank(it[1].z) if it[0] == 'seg' else it[2] if it[0] == 'rep' else z3.IntVal(1)
            end = z3.simplify(off + ln)
            if c.provable(n == end):
                return SymTuple(its[:k + 1]), SymTuple(its[k + 1:])
            if c.provable(n < end):
                if it[0] == 'seg':
                    pre, post = split_seg(it[1], z3.simplify(n - off))
                    return SymTuple(its[:k] + [pre]), SymTuple([post] + its[k + 1:])
                if it[0] == 'rep':
                    d = z3.simplify(n - off)
                    return SymTuple(its[:k] + [('rep', it[1], d)]), SymTuple([('rep', it[1], z3.simplify(it[2] - d))] + its[k + 1:])
            elif not c.provable(n > end):
                # decide where the cut is
                if c.branch(n == end):
                    return SymTuple(its[:k + 1]), SymTuple(its[k + 1:])
                if c.branch(n < end):
                    return self.split(n)
            off = end
        raise Unsupported('cannot cut a shape')

    def __iter__(self):
        its = self.norm()
        if all(x[0] == 'c' or (x[0] == 'rep' and z3.is_int_value(z3.simplify(x[2]))) for x in its):
            out = []
            for x in its:
                out += [x[1]] * (1 if x[0] == 'c' else z3.simplify(x[2]).as_long())
            return iter(out)
        raise Unsupported('iteration over a symbolic tuple in code that is not instrumented')

    def seq(self):
        t = self
        its = self.norm()
        if all(x[0] == 'c' for x in its):
            return SymList([('c', x[1]) for x in its])
        g = Group(self.rank(), lambda k: t.at(k), 'dims')
        g.shape = t
        c = ctx()
        if not any(x is t for x in c.cache.setdefault('listed', [])):
            c.cache['listed'].append(t)
        return SymList([('g', g)])

    def __contains__(self, x):
        its = self.norm()
        if not isinstance(x, (int, SymInt)) or isinstance(x, bool):
            if all(i[0] == 'c' for i in its):
                return any(i[1] is x or builtins.bool(i[1] == x) for i in its)
            raise Unsupported('membership in a symbolic tuple')
        c, v, t = ctx(), int_term(x), self.term()
        for i in its:
            if i[0] == 'c' and c.branch(int_term(i[1]) == v) or i[0] == 'rep' and c.branch(z3.And(i[2] > 0, int_term(i[1]) == v)):
                return True
        segs = [i[1] for i in its if i[0] == 'seg']
        if not segs:
            return False
        for g in segs:
            here = z3.Function('member', Shape, z3.IntSort(), Bool)(g.z, v)
            at = z3.Function('member at', Shape, z3.IntSort(), z3.IntSort())(g.z, v)
            c.add(z3.Implies(here, z3.And(at >= 0, at < F_rank(g.z), F_dim(g.z, at) == v)))
            if v.eq(z3.IntVal(0)) or not z3.is_int_value(v) or v.as_long() >= 0:
                if c.branch(here):
                    return True
        c.doubtful = True                # that no other dimension has the value is not said
        return False


class RevTuple(Opaque):
    """A symbolic tuple read backwards."""
    def __init__(self, t):
        self.t = t

    def length(self):
        return self.t.length()

    def rank(self):
        return self.t.rank()

    def __eq__(self, o):
        if isinstance(o, RevTuple):
            return self.t == o.t
        raise Unsupported('comparison of a reversed tuple')

    def __ne__(self, o):
        if isinstance(o, RevTuple):
            return self.t != o.t
        raise Unsupported('comparison of a reversed tuple')
    __hash__ = None

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                return self.t
            raise Unsupported('slice of a reversed tuple')
        return self.t.at(z3.simplify(self.rank() - 1 - from_start(int_term(i), self.rank())))

    def seq(self):
        t, n = self.t, self.rank()
        return SymList([('g', Group(n, lambda k: t.at(z3.simplify(n - 1 - k)), 'dims'))])

    def __iter__(self):
        raise Unsupported('iteration over a reversed tuple in code that is not instrumented')

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a reversed tuple in code that is not instrumented')


def shape_term(its):
    c = ctx()
    parts = []
    for it in its:
        if it[0] == 'seg':
            parts.append(it[1].z)
        elif it[0] == 'rep' and isinstance(it[1], int) and it[1] == 1:
            parts.append(F_ones(it[2]))
            c.add(F_rank(F_ones(it[2])) == it[2])
        elif it[0] == 'c':
            d = F_dim1(int_term(it[1]))
            parts.append(d)
            c.add(F_rank(d) == 1)
        else:
            raise Unsupported('shape with a symbolic repetition')
    if not parts:
        c.add(F_rank(Nil) == 0)
        return Nil
    t = parts[-1]
    for p in reversed(parts[:-1]):
        n = F_cat(p, t)
        c.add(F_rank(n) == F_rank(p) + F_rank(t))
        t = n
    return t


def split_seg(seg, n):
    """Cut a segment after n dimensions (0 < n < rank is known); returns two tuple items."""
    c = ctx()
    key = ('split', seg.label, str(n))
    if key not in c.cache:
        pre = Seg(z3.Const(c.name(seg.label + '.pre'), Shape))
        post = Seg(z3.Const(c.name(seg.label + '.post'), Shape))
        c.add(F_rank(pre.z) == n)
        c.add(F_rank(post.z) == F_rank(seg.z) - n)
        c.alias[seg.label] = SymTuple([('seg', pre), ('seg', post)])
        c.add(seg.z == F_cat(pre.z, post.z))
        c.cache[key] = (('seg', pre), ('seg', post))
    return c.cache[key]


class SortedShape(Opaque):
    """The dimensions of a shape in ascending order, or what else is determined by them in whatever order."""
    F = z3.Function("sorted", Shape, Shape)

    def __init__(self, t):
        self.t = t
        c, s = ctx(), t.term()
        self.z = self.F(s)
        for e in (F_rank(self.z) == F_rank(s), z3.Implies(F_rank(s) <= 1, self.z == s), F_rank(s) == t.rank()):
            c.add(e)

    def _same(self, o):
        if not isinstance(o, SortedShape):
            raise Unsupported('comparison of sorted dimensions')
        return self.z == o.z

    def __eq__(self, o): return SymBool(self._same(o))
    def __ne__(self, o): return SymBool(z3.Not(self._same(o)))
    __hash__ = None
    def length(self): return self.t.length()


class SymBoolShape(SymBool):
    """Equality of two shapes; deciding it positively lets the shapes be unified."""
    def __init__(self, a, b, positive):
        self.a, self.b, self.positive, self.content = a, b, positive, None

    @property
    def z(self):
        ta, tb = self.a.term(), self.b.term()
        e = z3.BoolVal(True) if ta.eq(tb) else ta == tb
        if z3.is_true(z3.simplify(ctx_rank_differs(self.a, self.b))):
            e = z3.BoolVal(False)
        return e if self.positive else z3.Not(e)

    def __bool__(self):
        ra, rb = self.a.rank(), self.b.rank()
        ta, tb = self.a.term(), self.b.term()
        if not ta.eq(tb):
            ctx().add(z3.Implies(ta == tb, ra == rb))
        r = ctx().branch(self.z)
        if r == self.positive:
            unify(self.a, self.b)
        return r

    def __eq__(self, o):
        return SymBool(self.z) == o
    __hash__ = object.__hash__


def numbers(s):
    """The dimensions, where all of them are known; None otherwise."""
    out = []
    for it in s.norm():
        n = None if it[0] == 'seg' else z3.simplify(it[2] if it[0] == 'rep' else int_term(it[1]))
        if n is None or not z3.is_int_value(n) or it[0] == 'rep' and it[1] != 1:
            return None
        out += [1] * n.as_long() if it[0] == 'rep' else [n.as_long()]
    return out


def concrete_shapes(a, b):
    return numbers(a) is not None and numbers(b) is not None


def ctx_rank_differs(a, b):
    ra, rb = a.rank(), b.rank()
    if concrete_shapes(a, b):
        return z3.BoolVal(numbers(a) != numbers(b))
    d = z3.simplify(ra - rb)
    return z3.BoolVal(z3.is_int_value(d) and d.as_long() != 0)


def unify(a, b):
    c = ctx()
    xa, xb = a.norm(), b.norm()
    while xa and xb and same_item(xa[0], xb[0]):
        xa, xb = xa[1:], xb[1:]
    while xa and xb and same_item(xa[-1], xb[-1]):
        xa, xb = xa[:-1], xb[:-1]
    if not xa and not xb:
        return
    lone = lambda x: len(x) == 1 and x[0][0] == 'seg' and x[0][1].label not in c.cache.get('rigid', ())
    for p, q in ((xa, xb), (xb, xa)):
        if lone(p) and not any(i[0] == 'seg' and i[1].label == p[0][1].label for i in q):
            c.alias[p[0][1].label] = SymTuple(q)
            c.add(p[0][1].z == shape_term(SymTuple(q).norm()))
            return
    if not xa or not xb:
        raise PathEnd()
    # leading parts of equal rank are equal
    if xa[0][0] == 'seg' and xb[0][0] == 'seg' and c.provable(F_rank(xa[0][1].z) == F_rank(xb[0][1].z)):
        unify(SymTuple(xa[:1]), SymTuple(xb[:1]))
        unify(SymTuple(xa[1:]), SymTuple(xb[1:]))


def same_item(p, q):
    if p[0] != q[0]:
        return False
    if p[0] == 'seg':
        return p[1].label == q[1].label
    if p[0] == 'rep':
        return p[1] == q[1] and ctx().provable(p[2] == q[2])
    return ctx().provable(int_term(p[1]) == int_term(q[1]))


def rigid(seg):
    """Never replaced by unification (other segments are expressed by it instead)."""
    ctx().cache.setdefault('rigid', set()).add(seg.label)
    return seg


def new_seg(label):
    return Seg(z3.Const(label, Shape), label)


def shape_of(*segs):
    return SymTuple([('seg', s) if isinstance(s, Seg) else ('c', s) for s in segs])


def any_shape(label, keep=False):
    """An arbitrary shape: none at all, or a run of at least one dimension (a Seg always has rank one or more)."""
    if ctx().choose(2) == 1:
        return SymTuple([])
    s = new_seg(label)
    if keep:
        rigid(s)
    ctx().add(F_rank(s.z) >= 1)
    return SymTuple([('seg', s)])


def as_shape(o):
    if isinstance(o, SymTuple):
        return o
    if isinstance(o, (tuple, list)):
        return SymTuple([('c', x) for x in o])
    if isinstance(o, (int, SymInt)):
        return SymTuple([('c', o)])
    if isinstance(o, SymList):
        return o.as_tuple()
    if isinstance(o, ShapeArg):
        return o.shape
    return None


class ShapeArg(Opaque):
    """A batch shape as a user may give it: an int, or a list or tuple of ints."""
    def __init__(self, shape):
        self.shape = shape


# ----------------------------------------------------------------------- tensors
def focus_index(shape, tag='b'):
    """The arbitrary position used for every segment of a shape."""
    c = ctx()
    out = []
    for it in shape.norm():
        if it[0] == 'seg':
            out.append(z3.Const('at:' + it[1].label + ':' + tag, Idx))
        elif it[0] == 'rep':
            continue
        else:
            t = z3.Const(f'at:{tag}:{len(out)}:{it[1] if isinstance(it[1], int) else it[1].z}', Int)
            c.add(t >= 0)
            c.add(t < int_term(it[1]))
            out.append(t)
    return tuple(out)


F_pack = {}


def pack(parts):
    """One index term for a composite position."""
    parts = [p for p in parts if p is not None]
    if len(parts) == 1 and parts[0].sort() == Idx:
        return parts[0]
    key = tuple(str(p.sort()) for p in parts)
    if key not in F_pack:
        F_pack[key] = z3.Function('pack_' + '_'.join(key), *[p.sort() for p in parts], Idx)
    return F_pack[key](*parts) if parts else z3.Const('at:scalar', Idx)


class SymTensor(Opaque):
    """jnp.ndarray."""
    def __init__(self, shape, elem, dtype, weak=False, static=False):
        self._shape, self._elem, self._dtype, self.weak = shape, elem, dtype, weak
        self.static = static            # a python scalar in disguise
        self.traced = False             # and whether it may be one only outside of compiled code

    # elem is called with one entry per segment of the *normalised* shape
    def elem(self, index):
        key = ('elem', id(self), tuple(str(x) for x in index))
        c = ctx().cache
        if key not in c:
            c[key] = (self._elem(index), self)
        return c[key][0]

    @property
    def shape(self):
        its = self._shape.norm()
        if all(x[0] == 'c' and isinstance(x[1], int) for x in its):
            return tuple(x[1] for x in its)
        return SymTuple(its)

    @property
    def sshape(self):
        return self._shape

    @property
    def ndim(self):
        return mkint(self._shape.rank())

    @property
    def dtype(self):
        return self._dtype

    @property
    def size(self):
        n = z3.IntVal(1)
        for it in self._shape.norm():
            if it[0] == 'seg':
                f = F_size(it[1].z)
                ctx().add(f >= 0)
                n = n * f
            elif it[0] == 'rep':
                if it[1] != 1:
                    raise Unsupported('size of a tensor with repeated dimensions')
            else:
                n = n * int_term(it[1])
        return mkint(z3.simplify(n))

    @property
    def T(self):
        raise Unsupported('tensor.T')

    def astype(self, d):
        from fakes import jnp
        return jnp.asarray(self, dtype=d)

    def copy(self):
        return SymTensor(self._shape, self._elem, self._dtype, self.weak)

    def block_until_ready(self):
        return self

    def __deepcopy__(self, memo):
        return self

    __copy__ = copy

    def reshape(self, *s):
        from fakes import jnp
        return jnp.reshape(self, s[0] if len(s) == 1 else s)

    def max(self, *a, **k):
        from fakes import jnp
        return jnp.max(self, *a, **k)

    def min(self, *a, **k):
        from fakes import jnp
        return jnp.min(self, *a, **k)

    def all(self):
        from fakes import jnp
        return jnp.all(self)

    def any(self):
        from fakes import jnp
        return jnp.any(self)

    def clip(self, a=None, b=None, min=None, max=None):
        from fakes import jnp
        return jnp.clip(self, min if a is None else a, max if b is None else b)

    def sum(self, *a, **k):
        raise Unsupported('tensor.sum')

    def _bin(self, op, o, swap=False):
        from fakes import binop
        if not isinstance(o, (SymTensor, bool, int, float, SymBool, SymInt, AllOf)):
            if isinstance(o, SymTree):
                o = o.as_tensor()
            else:
                return NotImplemented
        return binop(op, o, self) if swap else binop(op, self, o)

    def __add__(self, o): return self._bin('add', o)
    def __radd__(self, o): return self._bin('add', o, True)
    def __sub__(self, o): return self._bin('sub', o)
    def __rsub__(self, o): return self._bin('sub', o, True)
    def __mul__(self, o): return self._bin('mul', o)
    def __rmul__(self, o): return self._bin('mul', o, True)
    def __truediv__(self, o): return self._bin('div', o)
    def __rtruediv__(self, o): return self._bin('div', o, True)
    def __lt__(self, o): return self._bin('lt', o)
    def __le__(self, o): return self._bin('le', o)
    def __gt__(self, o): return self._bin('gt', o)
    def __ge__(self, o): return self._bin('ge', o)

    def __eq__(self, o):
        return self._bin('eq', o)

    def __ne__(self, o):
        return self._bin('ne', o)

    def __and__(self, o): return self._bin('and', o)
    def __rand__(self, o): return self._bin('and', o, True)
    def __or__(self, o): return self._bin('or', o)
    def __ror__(self, o): return self._bin('or', o, True)
    def __xor__(self, o): return self._bin('xor', o)
    __hash__ = object.__hash__

    def __invert__(self):
        from fakes import jnp
        return jnp.logical_not(self) if is_bool(self) else _unsup('~ on numbers')

    def __neg__(self):
        if is_bool(self):
            raise TypeError('neg does not accept dtype bool')
        return self._bin('mul', -1)

    def __pow__(self, n):
        if isinstance(n, int) and not isinstance(n, bool) and 1 <= n <= 4 and not is_bool(self) and ctx().provable(F_isfloat(self.dtype.z)):
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        raise Unsupported('a power of a tensor')

    def _inexact(self, *o):
        raise Unsupported('whole division of tensors')
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __matmul__ = __rmatmul__ = __rpow__ = _inexact

    def __pos__(self):
        return self

    def __abs__(self):
        from fakes import jnp
        return jnp.abs(self)

    def __bool__(self):
        if not ctx().provable(self._shape.rank() == 0):
            raise Unsupported('truth value of a tensor')
        e = self.elem(focus_index(self._shape))
        if not z3.is_bool(e):
            e = arith('ne', e, Num.const(0))
        if not self.static or self.traced:
            ctx().events.append(('content-branch', 'bool() of a tensor'))
        return ctx().branch(e)

    def __float__(self):
        raise Unsupported('float() of a tensor')

    def __len__(self):
        raise Unsupported('len() of a tensor')

    def __iter__(self):
        raise Unsupported('iteration over a tensor')

    def __getitem__(self, i):
        from fakes import index
        return index(self, i)


def is_bool(t):
    c = ctx()
    if t._dtype is BOOL or t._dtype.z.eq(BOOL.z):
        return True
    return c.provable(t._dtype.z == BOOL.z)


class AllOf(SymTensor):
    """jnp.all / jnp.any of a tensor: a rank-0 bool with a quantified meaning."""
    def __init__(self, t, univ):
        super().__init__(SymTuple([]), None, BOOL)
        self.t, self.univ = t, univ
        c = ctx()
        # any(t) is read as not all(not t)
        p = (lambda ix: pred_of(t, ix)) if univ else (lambda ix: z3.Not(pred_of(t, ix)))
        f = z3.simplify(p(focus_index(t._shape)))
        sh = t._shape.term().sexpr()
        key = ('allof', sh, f.sexpr())
        if key not in c.cache:
            v = c.cache[key] = z3.Bool(c.name('all'))
            # instantiation at the arbitrary position, and at a witness of the opposite
            ix = focus_index(t._shape, c.name('w'))
            nonempty = nonempty_of(t._shape)
            c.add(z3.Implies(z3.And(v, nonempty), f))
            c.add(z3.Implies(z3.Not(v), z3.And(nonempty, z3.Not(p(ix)))))
            others = c.cache.setdefault(('allofs', sh), [])
            for ov, op, oix in others:
                c.add(z3.Implies(z3.And(v, nonempty), p(oix)))
                c.add(z3.Implies(z3.And(ov, nonempty), op(ix)))
            others.append((v, p, ix))
        self.v = c.cache[key] if univ else z3.Not(c.cache[key])
        self._elem = lambda ix: self.v

    def instantiate(self, index):
        """The universally quantified half at another position."""
        f = pred_of(self.t, index)
        ctx().add(z3.Implies(self.v, f) if self.univ else z3.Implies(f, self.v))


def pred_of(t, ix):
    e = t.elem(ix)
    return e if z3.is_bool(e) else arith('ne', e, Num.const(0))


def nonempty_of(shape):
    """Whether a tensor of that shape has any position at all."""
    F = z3.Function('nonempty', Shape, Bool)
    conj = []
    for it in shape.norm():
        if it[0] == 'seg':
            conj.append(F(it[1].z))
        elif it[0] == 'c':
            conj.append(int_term(it[1]) > 0)
    return z3.And(*conj) if conj else z3.BoolVal(True)


def tensor(label, shape, dtype, sort=None, fact=None):
    """A tensor with arbitrary contents; fact is what a precondition says about each of its entries."""
    sort = Num.sort() if sort is None else sort
    F = z3.Function('val:' + label, Idx, sort)

    def elem(ix):
        v = F(pack(ix))
        if fact is not None:
            ctx().add(fact(v))
        return v
    t = SymTensor(shape, elem, dtype)
    t.label = label
    return t


def scalar(z, static=False, dtype=None, weak=True, traced=False):
    t = SymTensor(SymTuple([]), lambda ix: z, dtype or F32, weak=weak, static=static)
    t.traced = traced
    return t


# -------------------------------------------------------------------- collections
class Group:
    """length many items, item k given by get(k term)."""
    def __init__(self, length, get, owner, focus=None):
        self.length, self.get, self.owner = z3.simplify(length), get, owner


class Filtered(Group):
    """The items of a group that satisfy a condition, in order: which and how many is not known."""
    def __init__(self, n, raw, owner, cond):
        self.n, self.raw, self.owner, self.cond = n, raw, owner, cond
        self._len = None

    @property
    def length(self):
        import rtl
        if self._len is None:
            c = ctx()
            if rtl.exists(self):
                self._len = z3.Int(c.name('selected'))
                c.assume(self._len >= 1)
            else:
                self._len = z3.IntVal(0)
        return self._len

    def get(self, k):
        raise Unsupported('an item of a filtered list')


class SymList(Opaque):
    """A list.  Segments: ('c', value) or ('g', Group)."""
    def __init__(self, segs=()):
        self.segs = list(segs)
        c = ctx()
        self.serial = c.counter['list'] = c.counter['list'] + 1 if c else 0
        self.born = len(c.loops) if c else 0
        self.frozen = False

    def concrete(self):
        return all(s[0] == 'c' for s in self.segs)

    def values(self):
        self._read()
        if not self.concrete():
            raise Unsupported('a symbolic list where a concrete one is needed')
        return [s[1] for s in self.segs]

    def length(self):
        self._read()
        n = z3.IntVal(0)
        for s in self.segs:
            n = n + (s[1].length if s[0] == 'g' else 1)
        return mkint(n)

    def _write(self, what):
        if self.frozen:
            ctx().events.append(('mutation', f'list {what}'))
        for lp in ctx().loops:
            if self.serial <= lp.start_serial:
                lp.touch(self, what)

    def _read(self):
        for lp in ctx().loops:
            lp.seen(self)

    def append(self, v):
        self._write('append')
        self.segs.append(('c', v))

    def extend(self, o):
        self._write('extend')
        self.segs += as_list(o).segs

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        self._read()
        if not isinstance(o, (SymList, list)):
            return NotImplemented
        return SymList(self.segs + as_list(o).segs)

    def __radd__(self, o):
        if not isinstance(o, (SymList, list)):
            return NotImplemented
        return SymList(as_list(o).segs + self.segs)

    def __mul__(self, n):
        if isinstance(n, int):
            return SymList(self.segs * n)
        if isinstance(n, SymInt) and len(self.segs) == 1 and self.segs[0][0] == 'c':
            v = self.segs[0][1]
            return SymList([('g', Group(z3.If(n.z > 0, n.z, 0), lambda k: v, 'repeat'))])
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def copy(self):
        self._read()
        return SymList(self.segs)

    def pop(self, i=-1):
        self._write('pop')
        c = ctx()
        if isinstance(i, int) and i in (0, -1) and self.segs:
            s = self.segs[i]
            if s[0] == 'c':
                del self.segs[i]
                return s[1]
            g = s[1]
            if not c.branch(g.length > 0):
                del self.segs[i]
                return self.pop(i)
            if i == 0:
                self.segs[0] = ('g', Group(g.length - 1, lambda k: g.get(k + 1), g.owner))
                return g.get(z3.IntVal(0))
            self.segs[-1] = ('g', Group(g.length - 1, g.get, g.owner))
            return g.get(z3.simplify(g.length - 1))
        if not self.segs:
            raise IndexError('pop from empty list')
        raise Unsupported('list.pop')

    def at(self, i):
        self._read()
        c = ctx()
        n = to_int(self.length())
        i = from_start(i, n)
        if not c.branch(z3.And(i >= 0, i < n)):
            raise IndexError('list index out of range')
        off = z3.IntVal(0)
        for s in self.segs:
            ln = s[1].length if s[0] == 'g' else z3.IntVal(1)
            if c.branch(i < off + ln):
                return s[1] if s[0] == 'c' else s[1].get(z3.simplify(i - off))
            off = z3.simplify(off + ln)
        raise PathEnd()

    def __getitem__(self, i):
        self._read()
        if isinstance(i, slice):
            if self.concrete() and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return SymList(self.segs[i])
            if i.step is None and i.stop is None and i.start is not None:
                return self._drop(int_term(i.start))
            if i.step is None and i.start is None and i.stop is not None:
                return self._take(int_term(i.stop))
            raise Unsupported('slice of a symbolic list')
        if isinstance(i, int) and self.concrete():
            return self.segs[i][1]
        if isinstance(i, int) and i >= 0 and all(s[0] == 'c' for s in self.segs[:i + 1]) and len(self.segs) > i:
            return self.segs[i][1]
        return self.at(int_term(i))

    def _drop(self, n):
        c = ctx()
        if len(self.segs) == 1 and self.segs[0][0] == 'g':
            g = self.segs[0][1]
            if not c.branch(n >= 0):
                raise Unsupported('negative slice')
            return SymList([('g', Group(z3.If(g.length > n, g.length - n, 0), lambda k: g.get(z3.simplify(k + n)), g.owner))])
        raise Unsupported('slice of a symbolic list')

    def _take(self, n):
        c = ctx()
        if len(self.segs) == 1 and self.segs[0][0] == 'g':
            g = self.segs[0][1]
            if not c.branch(n >= 0):
                raise Unsupported('negative slice')
            return SymList([('g', Group(z3.If(g.length < n, g.length, n), g.get, g.owner))])
        raise Unsupported('slice of a symbolic list')

    def __setitem__(self, i, v):
        self._write('setitem')
        if isinstance(i, int) and self.concrete():
            self.segs[i] = ('c', v)
            return
        raise Unsupported('assignment into a symbolic list')

    def __iter__(self):
        self._read()
        if self.concrete():
            return iter([s[1] for s in self.segs])
        raise Unsupported('iteration over a symbolic list in code that is not instrumented')

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic list in code that is not instrumented')

    def __bool__(self):
        n = self.length()
        return bool(n > 0)

    def __eq__(self, o):
        if isinstance(o, (list, SymList)):
            o = as_list(o)
            if self.concrete() and o.concrete():
                return len(self.segs) == len(o.segs) and builtins.all(bool(a == b) for a, b in zip(self.values(), o.values()))
            if len(self.segs) == len(o.segs) == 1 and self.segs[0][0] == o.segs[0][0] == 'g':
                import rtl
                g, h = self.segs[0][1], o.segs[0][1]
                if not ctx().branch(g.length == h.length):
                    return False
                return rtl.all_(SymList([('g', Group(g.length, lambda k: g.get(k) == h.get(k), g.owner))]))
            raise Unsupported('comparison of symbolic lists')
        return False

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __contains__(self, x):
        if self.concrete():
            return builtins.any(v is x or bool(v == x) for v in self.values())
        return MEMBER(self, x)

    def as_tuple(self):
        if self.concrete():
            return SymTuple([('c', v) for v in self.values()])
        if len(self.segs) == 1 and getattr(self.segs[0][1], 'shape', None) is not None:
            return self.segs[0][1].shape
        if len(self.segs) == 1 and not isinstance(self.segs[0][1], Filtered):
            r = self._computed_shape(self.segs[0][1])
            if r is not None:
                return r
        raise Unsupported('a symbolic list as a tuple')

    def _computed_shape(self, g):
        '''Dimensions computed one by one from those of a shape: the same shape where none differs, another one where some does.'''
        c = ctx()
        for t in c.cache.get('listed', ()):
            if not c.provable(t.rank() == g.length):
                continue
            k = z3.Int(c.name('dimension'))
            c.assume(z3.And(k >= 0, k < g.length))
            v, old = g.get(k), t.at(k)
            if not isinstance(v, (int, SymInt)):
                return None
            v, old = int_term(v), int_term(old)
            if c.provable(v == old):
                return t
            if c.choose(2) == 1:
                c.assume(v == old)
                return t
            c.assume(v != old)
            s = new_seg(c.name('computed'))
            for e in (F_rank(s.z) == t.rank(), F_dim(s.z, k) == v, s.z != t.term()):
                c.add(e)
            return SymTuple([('seg', s)])
        return None

    def reverse(self):
        self._write('reverse')
        if not self.concrete():
            raise Unsupported('reverse')
        self.segs.reverse()

    def insert(self, i, v):
        self._write('insert')
        if i == 0:
            self.segs.insert(0, ('c', v))
        else:
            raise Unsupported('list.insert')

    def index(self, v):
        raise Unsupported('list.index')


def to_int(n):
    return int_term(n)


def as_list(o):
    if isinstance(o, SymList):
        o._read()
        return o
    if isinstance(o, (SymTuple, RevTuple)):
        return o.seq()
    if isinstance(o, (list, tuple)):
        return SymList([('c', x) for x in o])
    if isinstance(o, SymView):
        return o.as_list()
    if isinstance(o, LazySeq):
        return o.lst
    if isinstance(o, KeySet):
        return o.view().as_list()
    if isinstance(o, (dict, SymTree, SymTensor)):
        if isinstance(o, dict):
            return SymList([('c', x) for x in o])
        raise Unsupported(f'iteration over {type(o).__name__}')
    if isinstance(o, SymData):
        raise TypeError('the static data of a node is not iterable')
    if isinstance(o, Opaque):
        raise Unsupported(f'iteration over {type(o).__name__}')
    return SymList([('c', x) for x in list(o)])


def MEMBER(l, x):
    raise Unsupported('membership in a symbolic list')


class LazySeq(Opaque):
    """Result of zip/enumerate/map/generator expressions over symbolic sequences."""
    def __init__(self, lst):
        self.lst = lst

    def __iter__(self):
        return iter(self.lst)

    def __next__(self):
        raise Unsupported('next() on a symbolic iterator')

    def __bool__(self):
        return True


class SymDict(Opaque):
    """A dict keyed by names: an optional symbolic base plus a log of writes."""
    def __init__(self, base=None, log=None, label=None):
        self.base = base                 # None, or object with has(term)->Bool, val(term)->value, label
        self.log = list(log or [])       # ('set', key, value) | ('del', key) | ('loop', base of the loop, wrote)
        self.frozen = False
        c = ctx()
        self.serial = c.counter['dict'] = c.counter['dict'] + 1 if c else 0

    # ---- queries
    def has(self, key):
        """Bool term or python bool: membership, without forking."""
        t = name_term(key)
        if self._mixed(t):
            return z3.BoolVal(self._found(key) is not None)
        e = self.base.has(t) if self.base is not None else z3.BoolVal(False)
        for w in self.log:
            if w[0] == 'set':
                e = z3.Or(t == name_term(w[1]), e)
            elif w[0] == 'del':
                e = z3.And(t != name_term(w[1]), e)
            elif w[0] == 'loop':
                if w[2] == 'set':
                    e = z3.Or(self._inloop(w, t), e)
                elif w[2] == 'del':
                    e = z3.And(z3.Not(self._inloop(w, t)), e)
                else:
                    raise Unsupported('membership after a conditional write in a loop')
        return z3.simplify(e)

    def _mixed(self, t):
        '''Whether keys other than names are about: then the dictionary has to be known in full.'''
        if t is not None and not builtins.any(w[0] != 'loop' and name_term(w[1]) is None for w in self.log):
            return False
        if self.base is not None or ctx().loops or builtins.any(w[0] == 'loop' for w in self.log):
            raise Unsupported('dict key that is not a name')
        return True

    def _found(self, key):
        for w in reversed(self.log):
            if w[1] is key or builtins.bool(w[1] == key):
                return w if w[0] == 'set' else None
        return None

    def _inloop(self, w, t):
        foc = z3.Or(*[t == f for f in w[3]]) if w[3] else z3.BoolVal(False)
        return z3.And(w[1].has_term(t), z3.Not(foc))

    def __contains__(self, key):
        # `in` is rewritten by the loader so that it does not coerce; this is the fallback
        return ctx().branch(self.has(key))

    def lookup(self, key):
        c = ctx()
        t = name_term(key)
        if self._mixed(t):
            w = self._found(key)
            if w is None:
                raise KeyError(key)
            return w[2]
        for w in reversed(self.log):
            if w[0] == 'set':
                if c.branch(t == name_term(w[1])):
                    return w[2]
            elif w[0] == 'del':
                if c.branch(t == name_term(w[1])):
                    raise KeyError(key)
            elif w[0] == 'loop':
                if c.branch(self._inloop(w, t)):
                    if w[2] == 'del':
                        raise KeyError(key)
                    raise Unsupported('a value written by another iteration of a loop')
        if self.base is None or not c.branch(self.base.has(t)):
            raise KeyError(key)
        c.witness_key = t
        return self.base.val(t)

    def __getitem__(self, key):
        return self.lookup(key)

    def get(self, key, default=None):
        try:
            return self.lookup(key)
        except KeyError:
            return default

    def _write(self, what, key):
        if self.frozen:
            ctx().events.append(('mutation', f'dict {what}'))
        for lp in ctx().loops:
            if self.serial <= lp.start_dict:
                lp.touch(self, what, key)

    def __setitem__(self, key, value):
        if name_term(key) is None:
            self._mixed(None)
            hash(key)
        self._write('set', key)
        self.log.append(('set', key, value))

    def __delitem__(self, key):
        if not ctx().branch(self.has(key)):
            raise KeyError(key)
        self._write('del', key)
        self.log.append(('del', key))

    _missing = object()

    def pop(self, key, default=_missing):
        if not ctx().branch(self.has(key)):
            if default is SymDict._missing:
                raise KeyError(key)
            return default
        v = LazyVal(self, key)
        try:
            v = self.lookup(key)
        except Unsupported:
            pass
        self._write('del', key)
        self.log.append(('del', key))
        return v

    def setdefault(self, key, default=None):
        if ctx().branch(self.has(key)):
            return self.lookup(key)
        self[key] = default
        return default

    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, SymDict) and o.base is None and all(w[0] == 'set' for w in o.log):
                for w in o.log:
                    self[w[1]] = w[2]
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            elif isinstance(o, SymDict) and self.base is None and not self.log:
                self._write('update', None)
                self.base, self.log = o.base, list(o.log)
            elif isinstance(o, SymDict):
                old, new = self.copy(), o.copy()
                self._write('update', None)
                self.base, self.log = merged(old, new), []
            else:
                raise Unsupported('dict.update with a symbolic dict')
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._write('clear', None)
        self.base, self.log = None, []

    def copy(self):
        return SymDict(self.base, self.log)

    __copy__ = copy

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def keys(self):
        return SymView(self, 'keys')

    def items(self):
        return SymView(self, 'items')

    def values(self):
        return SymView(self, 'values')

    def concrete_keys(self):
        """The keys, when the dict has no symbolic part; None otherwise."""
        if self.base is not None or any(w[0] == 'loop' for w in self.log):
            return None
        keys = []
        for w in self.log:
            hit = None
            for k in keys:
                if w[1] is k or bool(w[1] == k):
                    hit = k
            if w[0] == 'set' and hit is None:
                keys.append(w[1])
            elif w[0] == 'del' and hit is not None:
                keys = [k for k in keys if k is not hit]
        return keys

    def length(self):
        ks = self.concrete_keys()
        if ks is not None:
            return len(ks)
        if self.base is not None and not self.log:
            return SymInt(self.base.card())
        raise Unsupported('len of a modified symbolic dict')

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic dict in code that is not instrumented')

    def __bool__(self):
        n = self.length()
        return n > 0 if isinstance(n, int) else bool(n > 0)

    def __iter__(self):
        ks = self.concrete_keys()
        if ks is None:
            raise Unsupported('iteration over a symbolic dict in code that is not instrumented')
        return iter(ks)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of dicts')

    def __ne__(self, o):
        if o is self:
            return False
        raise Unsupported('comparison of dicts')
    __hash__ = None

    def has_term(self, t):
        return self.has(SymName(t))


class LazyVal(Opaque):
    def __init__(self, d, k):
        pass


class SymView(Opaque):
    """keys(), items(), values() of a dict, seen at the time of iteration."""
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def value(self, t):
        k = t if not isinstance(t, z3.ExprRef) else SymName(t)
        if self.kind == 'keys':
            return k
        v = self.d.lookup(k)
        return v if self.kind == 'values' else (k, v)

    def as_list(self):
        ks = self.d.concrete_keys()
        if ks is not None:
            return SymList([('c', self.value(k)) for k in ks])
        view = self
        snap = SymView(self.d.copy(), self.kind)
        g = Group(z3.FreshConst(Int, 'card'), lambda k: _unsup('position in a dict'), 'dict')
        g.names = snap
        return SymList([('g', g)])

    def __iter__(self):
        return iter(self.as_list())

    def __contains__(self, x):
        if self.kind == 'keys':
            return x in self.d
        if self.kind != 'values' or x is not None:
            raise Unsupported('membership in dict values')
        # None among the values: some name has it, or none does
        c = ctx()
        ks = self.d.concrete_keys()
        if ks is not None:
            return any(self.value(k) is None for k in ks)
        d = self.d.copy()
        if c.choose(2) == 1:
            w = z3.Const(c.name('witness_name'), NameS)
            c.assume(d.has(SymName(w)))
            if d.lookup(SymName(w)) is not None:
                raise PathEnd()
            c.witness(w)
            return True

        def u(w):
            if w.sort() == NameS and c.branch(d.has(SymName(w))) and d.lookup(SymName(w)) is None:
                raise PathEnd()
        c.universal(u)
        return False

    def __eq__(self, o):
        return self._set('__eq__', o) if self.kind == 'keys' else False

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def _set(self, op, o):
        if self.kind != 'keys':
            raise Unsupported(f'dict {self.kind} as a set')
        return getattr(KeySet.of(self), op)(o)

    def __sub__(self, o): return self._set('__sub__', o)
    def __rsub__(self, o): return self._set('__rsub__', o)
    def __and__(self, o): return self._set('__and__', o)
    def __or__(self, o): return self._set('__or__', o)
    def __xor__(self, o): return self._set('__xor__', o)
    def __le__(self, o): return self._set('__le__', o)
    def __ge__(self, o): return self._set('__ge__', o)
    def __lt__(self, o): return self._set('__lt__', o)
    def __gt__(self, o): return self._set('__gt__', o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def length(self):
        return self.d.length()

    def __bool__(self):
        return bool(self.d)

    def isdisjoint(self, o):
        return self._set('isdisjoint', o)


class KeySet(Opaque):
    """A set of names, by which names are in it."""
    def __init__(self, has, base=None):
        self.has, self.base = has, base

    @staticmethod
    def of(o):
        if isinstance(o, KeySet):
            return o
        if isinstance(o, SymView) and o.kind == 'keys':
            o = o.d
        if isinstance(o, SymDict):
            d = o.copy()
            return KeySet(lambda t: d.has(SymName(t)), d)
        if isinstance(o, (SymList, LazySeq)):
            o = as_list(o)
            if len(o.segs) == 1 and o.segs[0][0] == 'g' and isinstance(getattr(o.segs[0][1], 'names', None), SymView) and o.segs[0][1].names.kind == 'keys':
                return KeySet.of(o.segs[0][1].names)
            if not o.concrete():
                raise Unsupported('set of symbolic values')
            o = o.values()
        if isinstance(o, (set, frozenset, dict, list, tuple, type({}.keys()))):
            ts = [name_term(x) for x in o]
            if any(t is None for t in ts):
                raise Unsupported('set of symbolic values')
            return KeySet(lambda t: z3.Or(*[t == x for x in ts]))
        raise Unsupported('set of symbolic values')

    def _new(self, o, f):
        o = KeySet.of(o)
        return KeySet(lambda t: z3.simplify(f(self.has(t), o.has(t))))

    def __sub__(self, o): return self._new(o, lambda a, b: z3.And(a, z3.Not(b)))
    def __rsub__(self, o): return KeySet.of(o) - self
    def __and__(self, o): return self._new(o, z3.And)
    def __or__(self, o): return self._new(o, z3.Or)
    def __xor__(self, o): return self._new(o, z3.Xor)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    difference, intersection, union, symmetric_difference = __sub__, __and__, __or__, __xor__

    def __bool__(self):
        c = ctx()
        if self.base is not None and self.base.concrete_keys() is not None:
            return bool(self.base.concrete_keys())
        if c.choose(2) == 1:
            w = z3.Const(c.name('witness_name'), NameS)
            c.assume(self.has(w))
            c.witness(w)
            return True
        c.universal(lambda w: c.add(z3.Not(self.has(w))) if w.sort() == NameS else None)
        if not c.feasible():
            raise PathEnd()
        return False

    def __le__(self, o): return not (self - o)
    def __ge__(self, o): return not (KeySet.of(o) - self)
    def __lt__(self, o): return self <= o and not self >= o
    def __gt__(self, o): return self >= o and not self <= o
    issubset, issuperset = __le__, __ge__

    def __eq__(self, o):
        return not (self ^ o)

    def __ne__(self, o):
        return bool(self ^ o)
    __hash__ = None

    def isdisjoint(self, o):
        return not (self & o)

    def __contains__(self, x):
        t = name_term(x)
        if t is None:
            raise Unsupported('membership in a set of names')
        return ctx().branch(self.has(t))

    def copy(self):
        return self

    def view(self):
        if self.base is not None:
            return self.base.keys()
        return SymDict(BaseMap(ctx().name('set of names'), lambda t: None, self.has)).keys()

    def length(self):
        return self.view().length()

    def __iter__(self):
        return iter(self.view())


class BaseMap:
    """Arbitrary dict contents: membership function, values from a factory."""
    def __init__(self, label, factory, has=None):
        self.label = label
        self.F = has if has is not None else z3.Function('in:' + label, NameS, Bool)
        self.factory = factory
        self._card = z3.Int('card:' + label)

    def has(self, t):
        c = ctx()
        e = self.F(t)
        if c.counter.get('card:' + self.label):
            c.add(z3.Implies(e, self._card > 0))
        return e

    def card(self):
        c = ctx()
        first = not c.counter['card:' + self.label]
        c.counter['card:' + self.label] += 1
        if first:
            c.add(self._card >= 0)
            w = z3.Const('member:' + self.label, NameS)
            c.add(z3.Implies(self._card > 0, self.F(w)))
            for n in c.focus_names + c.witnesses:
                c.add(z3.Implies(self.F(n), self._card > 0))
        return self._card

    def val(self, t):
        c = ctx()
        key = ('val', self.label, t.sexpr())
        if key not in c.cache:
            c.cache[key] = self.factory(t)
        v = c.cache[key]
        return v() if callable(v) and getattr(v, 'late', False) else v


def merged(old, new):
    """The entries of new, and those of old under other names."""
    return BaseMap(ctx().name('merged'), lambda t: (new if ctx().branch(new.has(SymName(t))) else old).lookup(SymName(t)),
                   lambda t: z3.simplify(z3.Or(new.has(SymName(t)), old.has(SymName(t)))))


# ---------------------------------------------------------------------- identity
def origin(x, kind):
    """Marks an input of the contract.  Inputs of different kinds may be one object."""
    if x is not None and getattr(x, 'vc_origin', None) is None:
        x.vc_origin = kind
    return x


def alias_of(kind):
    """The kind that inputs of the given kind are taken to be identical with on this run."""
    al = ctx().eng.alias
    return al[0] if kind in al else kind


def identity(a, b):
    """The code asks whether a is b."""
    p, q = getattr(a, 'vc_origin', None), getattr(b, 'vc_origin', None)
    if a is b or p is None or q is None:
        return
    if p == q:
        raise Unsupported('identity of two inputs of one kind')
    ctx().eng.alias_wanted.add(tuple(sorted((p, q))))


# ------------------------------------------------------------------------- trees
class SymTree(Opaque):
    """An arbitrary pytree whose leaves are tensors (or whatever leaf(k) gives)."""
    def __init__(self, td, leaf, label=None):
        self.td, self._leaf, self.label = td, leaf, label or str(td)
        ctx().add(F_nleaves(td) >= 0)

    @property
    def n(self):
        return F_nleaves(self.td)

    def leaf(self, k):
        c = ctx()
        key = ('leaf', id(self), k.sexpr())
        if key not in c.cache:
            v = self._leaf(k)
            if getattr(self, 'vc_origin', None) is not None and not isinstance(v, (int, float, str)):
                origin(v, self.vc_origin)
            c.cache[key] = (v, self)
        return c.cache[key][0]

    def group(self):
        g = Group(self.n, self.leaf, self.label)
        g.tree = self
        return g

    def as_tensor(self):
        """Use as a tensor: right only if the tree is a single leaf, a TypeError otherwise."""
        F = z3.Function('is_leaf_tree', TDS, Bool)
        c = ctx()
        if c.branch(F(self.td)):
            c.add(self.n == 1)
            return self.leaf(z3.IntVal(0))
        raise TypeError('unsupported operand: a pytree where a tensor is needed')

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if n in ('shape', 'ndim', 'dtype', 'astype', 'reshape', 'at', 'sum'):
            try:
                t = self.as_tensor()
            except TypeError:
                raise AttributeError(n)
            return getattr(t, n)
        raise Unsupported(f'tree.{n}')

    def _b(self, o, op, swap=False):
        t = self.as_tensor()
        return t._bin(op, o, swap)

    def __add__(self, o): return self._b(o, 'add')
    def __radd__(self, o): return self._b(o, 'add', True)
    def __sub__(self, o): return self._b(o, 'sub')
    def __mul__(self, o): return self._b(o, 'mul')
    def __rmul__(self, o): return self._b(o, 'mul', True)
    __hash__ = object.__hash__


class SymTreedef(Opaque):
    """What tree_structure returns: a skeleton."""
    def __init__(self, skel):
        self.skel = skel

    @property
    def num_leaves(self):
        return count_leaves(self.skel)

    def __eq__(self, o):
        if not isinstance(o, SymTreedef):
            return False
        return skel_eq(self.skel, o.skel)

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(to_z3(r)))

    def unflatten(self, leaves):
        from fakes import tree_unflatten
        return tree_unflatten(self, leaves)

    # ---- nodes of an arbitrary structure
    def _td(self):
        if self.skel[0] != 'sym':
            raise Unsupported('nodes of a concrete structure')
        td_facts(self.skel[1])
        return self.skel[1]

    def is_leaf(self):
        if self.skel[0] in ('leaf', 'none') or self.skel[0] == 'node' and not any(k[0] == 'group' for k in self.skel[3]):
            return self.skel[0] != 'node' or not self.skel[3]
        return SymBool(T_m(self._td()) == 0)      # jax: a structure of one node, empty containers included

    @property
    def num_nodes(self):
        return count_nodes(self.skel)

    def children(self):
        if self.skel[0] in ('leaf', 'none'):
            return SymList([])
        if self.skel[0] == 'node' and not any(k[0] == 'group' for k in self.skel[3]):
            return SymList([('c', SymTreedef(k)) for k in self.skel[3]])
        td = self._td()
        g = Group(T_m(td), lambda i: SymTreedef(('sym', child(td, i))), 'children')
        g.tds = [td]
        seen = ctx().cache.setdefault('children_of', [])
        if not any(td.eq(x) for x in seen):
            seen.append(td)
        return SymList([('g', g)])

    def node_data(self):
        td = self._td()
        if ctx().branch(T_leaf(td)):
            return None
        keys = None
        if ctx().branch(T_keyed(T_cls(td))):
            keys = SymList([('g', Group(T_m(td), lambda i: SymKey(T_key(td, i)), 'keys'))])
        elif ctx().branch(T_custom(T_cls(td))):
            keys = SymData(T_data(td))
        return (SymCls(T_cls(td)), keys)

    __hash__ = object.__hash__


# theory of structures: a node is a leaf, or a container of some class with children (and keys, when its class has any)
ClsS, KeyS = z3.DeclareSort('Class'), z3.DeclareSort('Key')
T_leaf = z3.Function('is_leaf_node', TDS, Bool)
T_m = z3.Function('n_children', TDS, Int)
T_cls = z3.Function('class_of', TDS, ClsS)
T_keyed = z3.Function('has_keys', ClsS, Bool)
T_key = z3.Function('key', TDS, Int, KeyS)
T_custom = z3.Function('has_static_data', ClsS, Bool)    # a class registered with data of its own: any value at all
T_data = z3.Function('static_data', TDS, KeyS)


def same_node_data(s, t, i):
    """Whether two nodes of one class have the same data, their keys compared at i only."""
    k = T_cls(s)
    return z3.If(T_keyed(k), T_key(s, i) == T_key(t, i), z3.Implies(T_custom(k), T_data(s) == T_data(t)))
T_child = z3.Function('child', TDS, Int, TDS)
T_off = z3.Function('leaves_before', TDS, Int, Int)     # leaves of the children before the i-th


def td_facts(td):
    c, key = ctx(), ('td_facts', td.sexpr())
    if key in c.cache:
        return
    c.cache[key] = True
    n, m = F_nleaves(td), T_m(td)
    c.add(z3.And(n >= 0, m >= 0))
    c.add(z3.Implies(T_leaf(td), z3.And(m == 0, n == 1)))
    c.add(z3.Implies(z3.And(z3.Not(T_leaf(td)), m == 0), n == 0))


def child(td, i):
    """The i-th child (0 <= i < m), with what follows for the leaves before it."""
    c = ctx()
    i = z3.simplify(i)
    ch = T_child(td, i)
    key = ('child', ch.sexpr())
    if key not in c.cache:
        c.cache[key] = True
        td_facts(td)
        td_facts(ch)
        o = T_off(td, i)
        c.add(z3.Implies(z3.And(i >= 0, i < T_m(td)), z3.And(o >= 0, o + F_nleaves(ch) <= F_nleaves(td))))
        c.add(T_off(td, z3.IntVal(0)) == 0)
        c.add(T_off(td, z3.simplify(i + 1)) == o + F_nleaves(ch))
    return ch


class SymCls(Opaque):
    """The class of a node."""
    def __init__(self, z):
        self.z = z

    def vc_is(self, o):
        if isinstance(o, SymCls):
            return ctx().branch(self.z == o.z)
        raise Unsupported('the class of a node compared with a known one')

    def __eq__(self, o):
        return self.vc_is(o)

    def __ne__(self, o):
        return not self.vc_is(o)
    __hash__ = object.__hash__

    def vc_subclass(self, o):
        if not isinstance(o, SymCls):
            raise Unsupported('the class of a node compared with a known one')
        f = z3.Function('is_subclass', ClsS, ClsS, Bool)
        ctx().add(f(self.z, self.z))
        ctx().add(z3.Implies(self.z == o.z, f(self.z, o.z)))
        return SymBool(f(self.z, o.z))


class SymKey(Opaque):
    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        return SymBool(self.z == o.z) if isinstance(o, SymKey) else False

    def __ne__(self, o):
        return SymBool(self.z != o.z) if isinstance(o, SymKey) else True
    __hash__ = object.__hash__


class SymData(SymKey):
    """The static data of a node of a registered class.  It can be compared; nothing says that it is a sequence."""
    def __eq__(self, o):
        return SymBool(self.z == o.z) if isinstance(o, SymData) else False

    def __ne__(self, o):
        return SymBool(self.z != o.z) if isinstance(o, SymData) else True

    def __iter__(self):
        raise TypeError('the static data of a node is not iterable')

    def __len__(self):
        raise TypeError('the static data of a node has no len()')

    def __getitem__(self, i):
        raise TypeError('the static data of a node is not subscriptable')
    __hash__ = object.__hash__


def count_leaves(sk):
    k = sk[0]
    if k == 'leaf':
        return 1
    if k == 'none':
        return 0
    if k == 'sym':
        return mkint(F_nleaves(sk[1]))
    if k == 'symdict':
        ctx().add(z3.Implies(int_term(sk[1].length()) == 0, sk[2].length == 0))
        return mkint(sk[2].length)
    if not isinstance(sk[-1], (list, tuple)):
        raise Unsupported('leaves of a structure of any size')
    n = 0
    for x in sk[-1]:
        n = n + count_leaves(x)
    return n


def count_nodes(sk):
    if sk[0] == 'sym':
        td_facts(sk[1])
        n = z3.Function('nnodes', TDS, Int)(sk[1])
        ctx().add(z3.And(n >= 1 + T_m(sk[1]), n >= F_nleaves(sk[1]), z3.Implies(T_m(sk[1]) == 0, n == 1)))
        return mkint(n)
    if sk[0] == 'symdict':
        n, m, l = z3.Int(f'nnodes:{sk[2].length}'), int_term(sk[1].length()), sk[2].length
        ctx().add(z3.And(n >= 1 + m, n >= 1 + l, z3.Implies(m == 0, z3.And(n == 1, l == 0))))
        return mkint(n)
    n = 1
    if sk[0] not in ('leaf', 'none'):
        if not isinstance(sk[-1], (list, tuple)):
            raise Unsupported('nodes of a structure of any size')
        for x in sk[-1]:
            n = n + count_nodes(x)
    return n


def skel_eq(a, b):
    if a[0] == 'sym' and b[0] == 'sym':
        return SymBool(a[1] == b[1])
    if a[0] == 'leaf' and b[0] == 'leaf' or a[0] == 'none' and b[0] == 'none':
        return True
    if a[0] == b[0] == 'node' and a[1] is b[1]:
        if len(a[-1]) != len(b[-1]):
            return False
        r = True
        for x, y in zip(a[-1], b[-1]):
            e = skel_eq(x, y)
            r = e if r is True else (r if e is True else SymBool(z3.And(to_z3(r), to_z3(e))))
        return r
    if 'sym' in (a[0], b[0]):
        F = z3.Function('is_leaf_tree', TDS, Bool)
        s, o = (a, b) if a[0] == 'sym' else (b, a)
        if o[0] == 'leaf':
            return SymBool(F(s[1]))
        raise Unsupported('comparison of a symbolic structure with a concrete one')
    return False
