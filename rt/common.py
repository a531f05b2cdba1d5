"""Runtime side of the contract checks: runs the real code of /repo (under /opt/venv).

Nothing in here is a model of the code: every case is executed by the real
functions, and judged by small oracles written from the property statements.
"""
import os, sys, json, collections, dataclasses
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import numpy as np
import jax
from jax import numpy as jnp
from jax import tree_util as tu


class Fail(Exception):
    """The property is violated by the real code."""


class Skip(Exception):
    """The case does not apply."""


def need(cond, msg):
    if not cond:
        raise Fail(msg)


# ---------------------------------------------------------------- JSON values
def enc(a):
    a = np.asarray(a)
    name = str(a.dtype)
    v = a.astype(np.float64) if name == 'bfloat16' else a
    return {'a': v.tolist(), 'd': name, 's': list(a.shape)}


def dec(o):
    """JSON array -> jnp array (real dtype)."""
    return jnp.asarray(np.array(o['a'], dtype=np.float64 if o['d'] not in ('bool',) else bool).reshape(o['s']),
                       dtype=o['d'])


Pair = collections.namedtuple('Pair', ['a', 'b'])
Other = collections.namedtuple('Other', ['a', 'b'])


@dataclasses.dataclass
class Node:
    x: object
    y: object


tu.register_pytree_with_keys(
    Node, lambda n: ([(tu.GetAttrKey('x'), n.x), (tu.GetAttrKey('y'), n.y)], None),
    lambda aux, ch: Node(*ch))


class Tag:
    """A registered container of any number of children, with static data of its own."""
    def __init__(self, data, ch):
        self.data, self.ch = data, list(ch)


tu.register_pytree_node(Tag, lambda n: (tuple(n.ch), n.data), lambda data, ch: Tag(data, ch))
tuples = lambda x: tuple(map(tuples, x)) if isinstance(x, list) else x


def build(t, leaf=dec):
    """tree spec -> real pytree. Specs: {'L': enc} | {'list': [..]} | {'tuple': [..]} | {'dict': {..}}
    | {'none':1} | {'Pair':[a,b]} | {'Other':[a,b]} | {'Node':[a,b]} | {'Tag:<data>':[..]} | {'odict:<names>':[..]} | {'ddict:<names>':[..]}"""
    (k, v), = t.items()
    if k == 'L':
        return leaf(v)
    if k == 'raw':
        return v
    if k == 'list':
        return [build(x, leaf) for x in v]
    if k == 'tuple':
        return tuple(build(x, leaf) for x in v)
    if k == 'dict':
        return {n: build(x, leaf) for n, x in v.items()}
    if k == 'none':
        return None
    if k in ('Pair', 'Other', 'Node'):
        return {'Pair': Pair, 'Other': Other, 'Node': Node}[k](*[build(x, leaf) for x in v])
    ch = [build(x, leaf) for x in v]
    if k.startswith('Tag:'):
        return Tag(tuples(json.loads(k[4:])), ch)
    if k.startswith('odict:'):
        return collections.OrderedDict(zip(json.loads(k[6:]), ch))
    if k.startswith('ddict:'):
        return collections.defaultdict(list, zip(json.loads(k[6:]), ch))
    raise ValueError(k)


def children(t):
    (k, v), = t.items()
    if k in ('L', 'raw', 'none'):
        return []
    if k == 'dict':
        return [v[n] for n in sorted(v)]
    return list(v)


def leaves_of(t):
    (k, v), = t.items()
    if k in ('L', 'raw'):
        return [v]
    return [y for c in children(t) for y in leaves_of(c)]


def map_spec(t, f):
    """f applied to each leaf payload, in jax leaf order."""
    (k, v), = t.items()
    if k == 'L':
        return {'L': f(v)}
    if k in ('raw', 'none'):
        return t
    if k == 'dict':
        new = {n: map_spec(v[n], f) for n in sorted(v)}
        return {'dict': {n: new[n] for n in v}}
    return {k: [map_spec(x, f) for x in v]}


def gen_tree(rng, leaf, depth=2, simple=0.4, nones=True, empties=True):
    r = rng.random()
    if depth == 0 or r < simple:
        return {'L': leaf()}
    kind = rng.choice(['list', 'tuple', 'dict', 'Pair', 'Node', 'dict', 'list'])
    if r > 0.97 and nones:
        return {'none': 1}
    if kind in ('Pair', 'Node'):
        return {kind: [gen_tree(rng, leaf, depth - 1, simple, nones, empties) for _ in range(2)]}
    n = int(rng.integers(0 if empties and rng.random() < .3 else 1, 4))
    ch = [gen_tree(rng, leaf, depth - 1, simple, nones, empties) for _ in range(n)]
    if kind == 'dict':
        names = list(rng.permutation(['k2', 'b', 'a', 'z9']))[:n]
        return {'dict': {str(a): c for a, c in zip(names, ch)}}
    return {str(kind): ch}


# ------------------------------------------------------------- state handling
def repo():
    from src.jax_act.core import states, controller, builder, viewer, tensoreditor, utils
    return states, controller, builder, viewer, tensoreditor, utils


def interned(t, made):
    """The tree of a spec, equal tensors being one object, and equal trees one object."""
    def one(key, make):
        key = json.dumps(key, sort_keys=True)
        if key not in made:
            made[key] = make()
        return made[key]
    return one(t, lambda: build(t, lambda a: one(a, lambda: dec(a))))


def make_state(s, container=dict):
    states = repo()[0]
    made = {}
    tree = lambda t: None if t is None else interned(t, made) if s.get('share') else build(t)
    return states.ACTStates(
        epsilon=s['eps'], iterations=dec(s['I']), residuals=dec(s['R']), probabilities=dec(s['P']),
        defaults={n: tree(t) for n, t in s['def'].items()},
        accumulators={n: tree(t) for n, t in s['acc'].items()},
        updates={n: tree(t) for n, t in s['upd'].items()},
        depression_constant=s['dep'], error_mode=s.get('mode'))


def make_controller(s):
    return repo()[1].ACT_Controller(make_state(s))


FIELDS = ['epsilon', 'iterations', 'residuals', 'probabilities', 'defaults', 'accumulators', 'updates',
          'depression_constant', 'error_mode']
SCALARS = ['epsilon', 'depression_constant', 'error_mode']


def exact(a, b):
    """Same kind, dtype, shape and content (nan equals nan)."""
    if isinstance(a, (jax.Array, np.ndarray)) or isinstance(b, (jax.Array, np.ndarray)):
        if not (hasattr(a, 'dtype') and hasattr(b, 'dtype')):
            return False
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind in 'fV':
            x, y = x.astype(np.float64), y.astype(np.float64)
            return bool(np.array_equal(x, y, equal_nan=True))
        return bool(np.array_equal(x, y))
    return type(a) is type(b) and (a == b or (a != a and b != b))


def tree_exact(a, b):
    la, ta = tu.tree_flatten(a)
    lb, tb = tu.tree_flatten(b)
    return ta == tb and len(la) == len(lb) and all(exact(x, y) for x, y in zip(la, lb))


def num(a):
    return np.asarray(a).astype(np.float64)


def close(a, b, rtol=2e-5, atol=2e-6):
    return a.shape == b.shape and bool(np.allclose(num(a), num(b), rtol=rtol, atol=atol, equal_nan=True))


class Snapshot:
    """Identity and content of a state and of the containers in it."""
    def __init__(self, state):
        self.state = state
        self.fields = {f: getattr(state, f) for f in FIELDS}
        self.dicts = {f: dict(self.fields[f]) for f in ('defaults', 'accumulators', 'updates')}
        self.order = {f: list(self.fields[f]) for f in self.dicts}
        self.flat = {f: tu.tree_flatten(v) for f, v in self.fields.items()}
        self.copy = {f: [np.array(x) if hasattr(x, 'dtype') else x for x in l] for f, (l, _) in self.flat.items()}

    def check(self, what):
        s = self.state
        for f, v in self.fields.items():
            need(getattr(s, f) is v, f'{what}: field {f} of the original state was reassigned')
            if f in self.dicts:
                need(list(v) == self.order[f], f'{what}: names in {f} of the original state changed to {list(v)}')
                for n, x in self.dicts[f].items():
                    need(v[n] is x, f'{what}: entry {n!r} of {f} of the original state was reassigned')
            leaves, td = tu.tree_flatten(v)
            need(td == self.flat[f][1], f'{what}: the tree of {f} of the original state changed')
            for x, y, c in zip(leaves, self.flat[f][0], self.copy[f]):
                need(x is y, f'{what}: a leaf of {f} of the original state was replaced')
                if hasattr(x, 'dtype'):
                    need(np.array_equal(np.asarray(x), c, equal_nan=c.dtype.kind == 'f'),
                         f'{what}: a tensor of {f} of the original state was written to')


def same_fields(old, new, but=(), what=''):
    for f in FIELDS:
        if f in but:
            continue
        a, b = getattr(old, f), getattr(new, f)
        if isinstance(a, dict):
            need(isinstance(b, dict) and sorted(a) == sorted(b), f'{what}: names in {f} changed')
            for n in a:
                need(tree_exact(a[n], b[n]), f'{what}: entry {n!r} of {f} changed')
        else:
            need(tree_exact(a, b), f'{what}: field {f} changed from {a} to {b}')


# ------------------------------------------------------------------ generation
BATCHES = [[3], [2, 3], [], [1], [2], [3, 3], [4, 1], [0]]
RESTS = [[], [3], [2], [3, 2], [1], [2, 3], [0]]
NAMES = ['state', 'a', 'zeta', 'output', 'state_2', 'ab', 'Z', 'b b']
DYADIC = [0.0, .125, .25, .375, .5, .625, .75, .875, 1.0]


def arr(rng, shape, lo=-2., hi=2., dtype='float32', dyadic=False):
    n = int(np.prod(shape)) if len(shape) else 1
    if dyadic:
        v = np.array([DYADIC[int(i)] for i in rng.integers(0, len(DYADIC), n)])
        v = lo + (hi - lo) * v
    else:
        v = rng.uniform(lo, hi, n)
    return enc(v.reshape(shape).astype(np.float32).astype(dtype if dtype != 'bfloat16' else np.float32))


def other_shape(rng, sh):
    """A shape that differs from the given one, often by little: it broadcasts, is a permutation or has as many elements."""
    sh, opts = list(sh), [[1] + list(sh), list(sh) + [1]]
    if sh:
        k = int(rng.integers(0, len(sh)))
        opts += [sh[:k] + [1] + sh[k + 1:], sh[:k] + [sh[k] + 1] + sh[k + 1:], *[[int(x) for x in rng.permutation(sh)] for _ in range(3)], sh[1:] + sh[:1], sh[::-1], sh[:k] + sh[k + 1:], sh[:-1], [int(np.prod(sh))]]
    opts = [x for x in opts if x != sh]
    return opts[int(rng.integers(0, len(opts)))]


def gen_probs(rng, shape, eps, dyadic):
    n = int(np.prod(shape)) if len(shape) else 1
    pool = DYADIC if dyadic else list(rng.uniform(0, 1, 6))
    thr = 1 - eps
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .25:
            out.append(1.0)
        elif r < .35:
            out.append(0.0)
        elif r < .45 and dyadic:
            out.append(thr)                      # exactly on the threshold: not halted
        elif r < .5:
            out.append(min(1., thr + eps / 2))   # halted but below one
        else:
            out.append(float(pool[int(rng.integers(0, len(pool)))]))
    return np.array(out, dtype=np.float32).reshape(shape)


def gen_leaf(rng, batch, dyadic=False):
    rest = RESTS[int(rng.integers(0, len(RESTS)))]
    if rng.random() < .5 and batch:
        rest = [batch[-1]] if rng.random() < .5 else batch[::-1]
    return arr(rng, list(batch) + list(rest), dyadic=dyadic)


def gen_state(rng, pending=None, batch=None, n_acc=None, dyadic=None, fresh=False, depth=2, dep=None, half=True):
    """pending: None -> random subset pending, False -> nothing, True -> everything.
    half: XLA at times crashes when it compiles float16 code for the CPU, so nothing that is compiled uses it."""
    if batch is None:
        batch = BATCHES[int(rng.integers(0, len(BATCHES)))]
    dyadic = bool(rng.random() < .5) if dyadic is None else dyadic
    eps = float(rng.choice([.25, .125, .5, .0625])) if dyadic else float(rng.choice([1e-4, .1, .3, .01, .7]))
    if dep is None:
        dep = float(rng.choice([1., .5, 2., .25, 0.])) if dyadic else float(rng.choice([1., .3, 1.7, .9, 5.]))
    P = gen_probs(rng, batch, eps, dyadic)
    if fresh:
        P = np.zeros(batch, np.float32)
    n_acc = int(rng.integers(1, 4)) if n_acc is None else n_acc
    names = [str(x) for x in rng.permutation(NAMES)[:n_acc]]
    leaf = lambda: gen_leaf(rng, batch, dyadic)
    acc = {n: gen_tree(rng, leaf, depth, nones=False) for n in names}
    dt = 'float16' if dyadic and rng.random() < .12 and half else 'float32'
    acc = {n: map_spec(t, lambda a: dict(a, d=dt)) for n, t in acc.items()}
    fresh_leaf = lambda a: arr(rng, a['s'], dyadic=dyadic, dtype=a['d'])
    dfl = {n: map_spec(t, fresh_leaf) for n, t in acc.items()}
    if fresh:
        acc = {n: t for n, t in dfl.items()}
    upd = {}
    for n, t in acc.items():
        p = bool(rng.random() < .5) if pending is None else pending
        upd[n] = map_spec(t, fresh_leaf) if p else None
    # some trees are the very objects of others, and hold the same object twice
    share = bool(rng.random() < .2)
    if share:
        seen = {}
        again = lambda a: seen.setdefault(json.dumps(a['s']), a) if rng.random() < .5 else a
        for n in names:
            acc[n] = map_spec(acc[n], again)
            if rng.random() < .6:
                dfl[n] = acc[n]
            if upd[n] is not None and rng.random() < .6:
                upd[n] = [acc[n], dfl[n]][int(rng.integers(0, 2))]
    # defaults / updates are keyed by the same names but in another insertion order
    dfl = {n: dfl[n] for n in rng.permutation(names)} if n_acc else {}
    upd = {str(n): upd[str(n)] for n in rng.permutation(names)} if n_acc else {}
    z = np.zeros(batch, np.float32)
    P, z = P.astype(dt), z.astype(dt)
    return {'eps': eps, 'dep': dep, 'P': enc(P), 'dt': dt,
            'R': enc(z) if fresh else arr(rng, batch, 0, 1, dyadic=dyadic, dtype=dt),
            'I': enc(z) if fresh else enc((rng.integers(0, 7, batch) + (.5 * (rng.random(batch) < .5) if rng.random() < .25 else 0.)).astype(dt)),
            'def': {str(n): t for n, t in dfl.items()}, 'acc': acc, 'upd': upd, 'dyadic': dyadic, 'share': share,
            'mode': [None, None, 'standard'][int(rng.integers(0, 3))]}


def gen_h(rng, s, wild=True):
    """Halting probabilities: exact threshold hits, overshoots, values outside [0,1]."""
    shape = s['P']['s']
    P = np.array(s['P']['a'], np.float64).reshape(shape)
    thr, c = 1 - s['eps'], s['dep']
    flat = P.reshape(-1)
    out = []
    for p in flat:
        r = rng.random()
        if r < .2 and c > 0 and s['dyadic']:
            out.append((thr - p) / c)             # exactly on the threshold: must not halt
        elif r < .35 and c > 0 and s['dyadic']:
            out.append((thr - p) / c + .0625)
        elif r < .45 and wild:
            out.append(float(rng.choice([-1., -.25, 1.5, 7., 1., 0.])))
        elif s['dyadic']:
            out.append(DYADIC[int(rng.integers(0, 9))])
        else:
            out.append(float(rng.uniform(0, 1)) * float(rng.choice([1., .2, .05])))
    return enc(np.array(out, np.float32).astype(s.get('dt', 'float32')).reshape(shape))


# -------------------------------------------------------------------- oracle
def lanes(state, h):
    """Expected result of one iteration per batch entry, from the statement of the property.
    Returns dict of float64 arrays, and which entries are too close to the threshold to call."""
    P, R, I = num(state.probabilities), num(state.residuals), num(state.iterations)
    c, thr = float(state.depression_constant), 1. - float(state.epsilon)
    q = c * np.clip(num(h), 0., 1.)
    was = P > thr
    now = P + q > thr
    tick = 2. ** 12
    dy = lambda x: np.equal(np.mod(x * tick, 1.), 0.)
    sure = dy(P) & dy(q) & dy(num(h)) & bool(dy(np.float64(thr))) & bool(dy(np.float64(c)))
    vague = ((np.abs(P + q - thr) < 4e-6) | (np.abs(P - thr) < 4e-6)) & ~sure
    w = np.where(now, 1. - P, q)
    return dict(P=np.where(now, 1., P + q), R=np.where(now & ~was, 1. - P, R), I=np.where(was, I, I + 1.),
                w=w, was=was, now=now, vague=vague, sure=sure)


def tol(x):
    return dict(rtol=4e-3, atol=4e-3) if x.dtype == np.float16 else dict(rtol=2e-5, atol=5e-6)


def left(x, shape):
    return np.broadcast_to(x.reshape(x.shape + (1,) * (len(shape) - x.ndim)), shape)


def step(ctrl, s, op):
    """Apply a JSON operation to the real controller."""
    k = op[0]
    if k == 'cache':
        return ctrl.cache_update(op[1], build(op[2]))
    if k == 'iter':
        return ctrl.iterate_act(dec(op[1]))
    if k == 'reset':
        return ctrl.reset_batches()
    if k == 'roundtrip':
        l, t = tu.tree_flatten(ctrl)
        return tu.tree_unflatten(t, l)
    if k == 'jititer':
        return jax.jit(lambda c, h: c.iterate_act(h))(ctrl, dec(op[1]))
    raise ValueError(k)


def gen_history(rng, n=4, resets=True, **kw):
    """A fresh state and legal operations on it."""
    s = gen_state(rng, pending=False, fresh=kw.pop('fresh', True), **kw)
    ops = []
    for _ in range(n):
        if resets and ops and rng.random() < .25:
            ops.append(['reset'])
            continue
        for nm in rng.permutation(list(s['acc'])):
            t = s['acc'][str(nm)]
            ops.append(['cache', str(nm), map_spec(t, lambda a: arr(rng, a['s'], dyadic=s['dyadic'], dtype=a['d']))])
        ops.append(['iter', gen_h(rng, dict(s, P=enc(np.zeros(s['P']['s'])))) if rng.random() < .5
                    else arr(rng, s['P']['s'], 0, .6, dyadic=s['dyadic'], dtype=s['dt'])])
    return {'s': s, 'ops': ops}
