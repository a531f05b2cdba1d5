"""Runs small expressions over tensors with the installed jax and prints what comes out, one JSON object per line.
Run with the interpreter of the repository.  conf/compare.py evaluates the same expressions with the contracts of vc/fakes.py."""
import itertools, json, random, sys
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax

rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
PER = int(sys.argv[2]) if len(sys.argv) > 2 else 6
PART, PARTS = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
rng.seed(f'{sys.argv[1:3]} {PART}')

SHAPES = [(), (2,), (3,), (2, 3), (1,), (2, 1), (1, 3), (3, 2, 2)]
UN = ['jnp.abs(a)', 'jnp.absolute(a)', '-a', '+a', 'jnp.negative(a)', 'jnp.square(a)', 'jnp.sign(a)', 'jnp.floor(a)', 'jnp.ceil(a)', 'jnp.round(a)', 'jnp.rint(a)', 'jnp.trunc(a)',
      'jnp.fix(a)', 'jnp.nan_to_num(a)', 'jnp.isnan(a)', 'jnp.isinf(a)', 'jnp.isfinite(a)', 'jnp.zeros_like(a)', 'jnp.ones_like(a)', 'jnp.full_like(a, 2)', 'jnp.full_like(a, 0.5)',
      'jnp.asarray(a)', 'jnp.array(a)', 'a.copy()', 'jnp.logical_not(a)', 'a.astype(jnp.float32)', 'a.astype(jnp.int32)', 'a.astype(jnp.bool_)', 'a.astype(bool)', 'jnp.asarray(a, jnp.float16)',
      'a.all()', 'a.any()', 'jnp.all(a)', 'jnp.any(a)', 'jnp.all(a > 0)', 'jnp.any(a > 0)', 'a.max()', 'a.min()', 'jnp.max(a)', 'jnp.min(a)',
      'a[..., None]', 'a[None]', 'a[None, ...]', 'a[..., None, None]', 'jnp.expand_dims(a, -1)', 'jnp.expand_dims(a, 0)', 'jnp.expand_dims(a, (-1, -2))', 'a.reshape(a.shape)',
      'a.reshape(a.shape + (1,))', 'a.reshape((1,) + a.shape)', 'jnp.reshape(a, a.shape + (1, 1))', 'a.clip(0, 1)', 'jnp.clip(a, 0.0, 1.0)', 'jnp.clip(a, 0)', 'jnp.clip(a, None, 1.0)',
      'jnp.clip(a, a_min=0.0, a_max=1.0)', 'jnp.zeros(a.shape, a.dtype)', 'jnp.ones(a.shape)', 'jnp.full(a.shape, 3)', 'jnp.full(a.shape, 0.25, a.dtype)', 'jnp.zeros(a.shape, jnp.int32)',
      'jnp.broadcast_to(a, a.shape)', 'jnp.broadcast_to(a, (2,) + a.shape)', 'jnp.broadcast_to(a[..., None], a.shape + (2,))', 'jnp.where(a > 0, a, 0)', 'jnp.where(a > 0, a, -1.0)',
      'jnp.where(a, 1.0, 0.0)', 'jnp.where(a > 0, 1, 0)', 'jnp.where(a > 0, 1, 0.5)', 'jnp.select([a > 1, a > 0], [a, -a], 7)', 'lax.stop_gradient(a)', 'jnp.invert(a > 0)', '~(a > 0)',
      'lax.clamp(0.0, a, 1.0)', 'a ** 2', '1 - a', '1.0 - a', 'a + 1', 'a * 0.5', '2 * a', 'a / 2', 'a // 2', 'a % 2', 'abs(a)', 'a > 0', 'a == 1', 'a != 1.0', '0 <= a', 'jnp.round(a, 1)',
      'jnp.where(a != a, 0, a)', 'jnp.sum(a)', 'a.sum()', 'a.T', 'jnp.minimum(a, 1)', 'jnp.maximum(a, 0.5)', 'jnp.bitwise_not(a > 0)', 'jnp.where(a > 0, True, False)', '(a > 0).astype(a.dtype)',
      '(a > 0) * a', '(a > 0) * 1.0', '(a > 0) * 2', '1 - (a > 0)', '(a > 0) + 1', 'jnp.size(a)', 'jnp.ndim(a)', 'a.ndim', 'a.size', 'jnp.shape(a)', 'jnp.squeeze(a)', 'jnp.logical_not(a > 0)']
BI = ['a + b', 'a - b', 'a * b', 'a / b', 'a < b', 'a <= b', 'a > b', 'a >= b', 'a == b', 'a != b', 'jnp.add(a, b)', 'jnp.subtract(a, b)', 'jnp.multiply(a, b)', 'jnp.divide(a, b)',
      'jnp.true_divide(a, b)', 'jnp.maximum(a, b)', 'jnp.minimum(a, b)', 'jnp.greater(a, b)', 'jnp.greater_equal(a, b)', 'jnp.less(a, b)', 'jnp.less_equal(a, b)', 'jnp.equal(a, b)',
      'jnp.not_equal(a, b)', 'jnp.logical_and(a, b)', 'jnp.logical_or(a, b)', 'jnp.logical_xor(a, b)', '(a > 0) & (b > 0)', '(a > 0) | (b > 0)', '(a > 0) ^ (b > 0)',
      'jnp.bitwise_and(a > 0, b > 0)', 'jnp.bitwise_or(a > 0, b > 0)', 'jnp.where(a > 0, a, b)', 'jnp.where(a > b, a, b)', 'jnp.where(b > 0, 1.0, a)', 'jnp.where(a > 0, b, 0)', 'jnp.clip(a, b)', 'jnp.clip(a, 0, b)',
      'jnp.isclose(a, b)', 'jnp.allclose(a, b)', 'jnp.array_equal(a, b)', 'jnp.broadcast_to(a, b.shape)', 'lax.add(a, b)', 'lax.sub(a, b)', 'lax.mul(a, b)', 'lax.max(a, b)', 'lax.min(a, b)',
      'lax.gt(a, b)', 'lax.ge(a, b)', 'lax.lt(a, b)', 'lax.le(a, b)', 'lax.eq(a, b)', 'lax.ne(a, b)', 'lax.select(a > 0, a, b)', 'lax.select_n(a > 0, a, b)', 'a.astype(b.dtype)',
      'jnp.full_like(a, 1, dtype=b.dtype)', 'jnp.zeros_like(a, dtype=b.dtype)', 'jnp.asarray(a, dtype=b.dtype)', 'a.shape == b.shape', 'a.dtype == b.dtype', 'a.shape[:1] == b.shape[:1]',
      'a.ndim > b.ndim', 'jnp.result_type(a, b)', 'jnp.issubdtype(a.dtype, jnp.floating)', 'jnp.issubdtype(a.dtype, jnp.integer)', 'jnp.logical_and(a > 0, b > 0)', 'a.reshape(b.shape)',
      'jnp.where(a > 0, a, jnp.zeros_like(b))', 'a * (b > 0)', 'jnp.where(a == a, b, a)', 'a + b * a', '(1 - a) * b', 'jnp.select([a > 0, b > 0], [a, b], 0)']
TYPES = ['float32', 'float32', 'float32', 'float16', 'bfloat16', 'int32', 'int8', 'uint8', 'bool']


def make(shape, dtype, weak):
    n = int(np.prod(shape))
    if dtype == 'bool':
        data = [rng.random() < .5 for _ in range(n)]
    elif 'int' in dtype:
        data = [rng.randint(0 if dtype[0] == 'u' else -3, 3) for _ in range(n)]
    else:
        data = [rng.choice([-2.5, -1, -.5, 0, .25, .5, 1, 1.5, 2, 3]) for _ in range(n)]
    if weak:
        return {'py': True, 'shape': [], 'dtype': dtype, 'data': data}, (bool if dtype == 'bool' else int if 'int' in dtype else float)(data[0])
    return {'py': False, 'shape': list(shape), 'dtype': dtype, 'data': data}, jnp.asarray(np.array(data).reshape(shape), dtype=dtype)


def clean(v):
    v = float(v)
    return 'nan' if v != v else 'inf' if v == float('inf') else '-inf' if v == float('-inf') else v


def describe(r):
    if isinstance(r, (bool, np.bool_)):
        return {'kind': 'bool', 'value': bool(r)}
    if isinstance(r, int):
        return {'kind': 'int', 'value': r}
    if isinstance(r, tuple):
        return {'kind': 'tuple', 'value': list(r)}
    if isinstance(r, (np.dtype, type)):
        return {'kind': 'dtype', 'value': np.dtype(r).name}
    return {'kind': 'tensor', 'shape': list(r.shape), 'dtype': r.dtype.name, 'weak': bool(getattr(r, 'weak_type', False)), 'data': [clean(x) for x in np.asarray(r, dtype=np.float64).reshape(-1)]}


def case(expr, names):
    args, env = {}, {'jnp': jnp, 'jax': jax, 'lax': lax}
    sh = rng.choice(SHAPES)
    types = [t for t in TYPES if '-' not in expr or t != 'uint8']
    ty = rng.choice(types)
    for n in names:
        if n != names[0]:
            sh = sh if rng.random() < .6 else rng.choice(SHAPES)
            ty = ty if rng.random() < .6 else rng.choice(types)
        weak = n != names[0] and rng.random() < .15 and ty in ('float32', 'int32', 'bool')
        args[n], env[n] = make(sh, ty, weak)
    try:
        out = describe(eval(expr, env))
    except Exception as e:
        out = {'kind': 'error', 'value': type(e).__name__}
    print(json.dumps({'expr': expr, 'args': args, 'out': out}), flush=True)


TU = ['tu.tree_leaves(t)', 'tu.tree_structure(t).num_leaves', 'tu.tree_structure(t).num_nodes', 'tu.tree_structure(t) == tu.tree_structure(s)', 'tu.tree_structure(t) != tu.tree_structure(s)',
      'tu.tree_map(lambda x: x + 10, t)', 'tu.tree_map(lambda x, y: (x, y), t, s)', 'tu.tree_unflatten(tu.tree_structure(t), tu.tree_leaves(s))',
      'tu.tree_unflatten(tu.tree_structure(t), tu.tree_leaves(t))', 'tu.tree_flatten(t)[0]', 'tu.tree_flatten(t)[1] == tu.tree_structure(s)', 'tu.tree_flatten(t)[1].unflatten(tu.tree_leaves(t))',
      'tu.tree_leaves(t, is_leaf=lambda x: isinstance(x, tuple))', 'tu.tree_map(lambda x: 7, t, is_leaf=lambda x: x is None)', 'tu.tree_structure(t, is_leaf=lambda x: isinstance(x, list)).num_leaves',
      'tu.all_leaves(tu.tree_leaves(t))', 'tu.all_leaves([t])', 'tu.treedef_is_leaf(tu.tree_structure(t))', 'len(tu.treedef_children(tu.tree_structure(t)))', 'len(tu.tree_structure(t).children())',
      'jax.tree_map(lambda x, y: x - y, t, s)', 'tu.tree_all(tu.tree_map(lambda x: x > 2, t))', 'tu.tree_map(lambda x, y: y, t, s, is_leaf=lambda x: isinstance(x, (tuple, list)))',
      'tu.tree_structure(tu.tree_map(lambda x: None, t)) == tu.tree_structure(t)', 'tu.tree_leaves((t, s))', "tu.tree_leaves({'z': t, 'y': s})", 'tu.tree_map(lambda x: x, [t, s])']


def tree(depth):
    k = rng.random()
    if depth == 0 or k < .3:
        return None if rng.random() < .2 else rng.randint(0, 9)
    n = rng.choice([0, 1, 2, 2, 3])
    if k < .5:
        return [tree(depth - 1) for _ in range(n)]
    if k < .7:
        return tuple(tree(depth - 1) for _ in range(n))
    return {c: tree(depth - 1) for c in rng.sample('abcd', n)}


def alike(t):
    """A tree of the same structure, mostly."""
    if rng.random() < .05:
        return tree(1)
    if isinstance(t, (list, tuple)):
        return type(t)(alike(x) for x in t)
    if isinstance(t, dict):
        ks = list(t)
        rng.shuffle(ks)
        return {k: alike(t[k]) for k in ks}
    return t if t is None else rng.randint(0, 9)


def plain(x):
    if isinstance(x, (list, tuple)):
        return {'list' if isinstance(x, list) else 'tuple': [plain(y) for y in x]}
    if isinstance(x, dict):
        return {'dict': [[k, plain(x[k])] for k in sorted(x)]}
    return x


for e in TU[PART::PARTS]:
    for _ in range(PER * 4):
        t = tree(3)
        s = alike(t) if rng.random() < .7 else tree(2)
        try:
            out = {'kind': 'value', 'value': plain(eval(e, {'tu': jax.tree_util, 'jax': jax, 't': t, 's': s}))}
        except Exception as x:
            out = {'kind': 'error', 'value': type(x).__name__}
        print(json.dumps({'expr': e, 'trees': [repr(t), repr(s)], 'out': out}), flush=True)
for e in UN[PART::PARTS]:
    for _ in range(PER):
        case(e, 'a')
for e in BI[PART::PARTS]:
    for _ in range(PER * 3):
        case(e, 'ab')
