"""Utilities, layers, frameworks."""
from common import *
from props_core import refused, accepted
import types

PROPS = {}


def prop(pid, quick, thorough):
    def deco(cls):
        PROPS[pid] = cls()
        PROPS[pid].n = {'quick': quick, 'thorough': thorough}
        return cls
    return deco


# Trees of all kinds of containers, described by the spec language of common.py.
DATA = [None, 0, 1, '', 'ab', 'ac', 'a', [], ['a'], ['b'], ['a', 'b'], 2.5, [['a'], 1]]


def std_kind(rng, n):
    """The rarer containers: registered ones with static data, ordered and default dicts."""
    r = rng.random()
    if r < .5:
        return 'Tag:' + json.dumps(DATA[int(rng.integers(0, len(DATA)))])
    names = [str(x) for x in rng.permutation(['k', 'b', 'a', 'zz'])[:n]]
    return 'odict:' + json.dumps(names) if r < .8 else 'ddict:' + json.dumps(sorted(names))


def gen_std(rng, leaf, depth=3, stop=.3):
    r = rng.random()
    if depth == 0 or r < stop:
        return {'L': leaf()} if rng.random() < .9 else {'none': 1}
    k = ['list', 'tuple', 'dict', 'Pair'][int(rng.integers(0, 4))]
    n = 2 if k == 'Pair' else int(rng.integers(0 if rng.random() < .35 else 1, 4))
    ch = [gen_std(rng, leaf, depth - 1, stop) for _ in range(n)]
    if k == 'dict':
        return {'dict': {str(a): c for a, c in zip(rng.permutation(['k', 'b', 'a', 'zz'])[:n], ch)}}
    if k in ('list', 'tuple') and rng.random() < .3:
        k = std_kind(rng, n)
    return {k: ch}


def grow(rng, t, leaf, depth=2):
    """A target of which t is a prefix: some leaves become subtrees."""
    (k, v), = t.items()
    if k == 'L':
        return gen_std(rng, leaf, depth, .45)
    if k == 'none':
        return t
    if k == 'dict':
        return {'dict': {n: grow(rng, c, leaf, depth) for n, c in v.items()}}
    return {k: [grow(rng, c, leaf, depth) for c in v]}


def mutate(rng, t, leaf):
    """One structural change somewhere."""
    (k, v), = t.items()
    if k in ('L', 'none') or rng.random() < .35:
        if k in ('L', 'none'):
            return {'list': [t]} if rng.random() < .5 else {'tuple': []}
        if k == 'dict':
            if v and rng.random() < .7:
                n = list(v)[int(rng.integers(0, len(v)))]
                return {'dict': {('c' + a if a == n else a): c for a, c in v.items()}}
            return {'list': list(v.values())}
        if ':' in k:
            j = std_kind(rng, len(v)) if rng.random() < .8 else 'list'
            return {'list' if j == k else j: v}
        if rng.random() < .35 and len(v) and k != 'Pair':
            return {k: v[:-1]}
        if rng.random() < .4 and k != 'Pair':
            return {k: v + [{'L': leaf()}]}
        if k == 'Pair':
            return {'Other': v} if rng.random() < .5 else {'tuple': v}
        if len(v) == 2 and k == 'tuple' and rng.random() < .5:
            return {'Pair': v}
        return {'tuple' if k == 'list' else 'list': v}
    ch = list(v) if k == 'dict' else list(range(len(v)))
    if not ch:
        return {'tuple' if k != 'tuple' else 'list': []}
    i = ch[int(rng.integers(0, len(ch)))]
    if k == 'dict':
        return {'dict': {a: (mutate(rng, c, leaf) if a == i else c) for a, c in v.items()}}
    return {k: [mutate(rng, c, leaf) if a == i else c for a, c in enumerate(v)]}


def kind(t):
    (k, v), = t.items()
    return k, v


def prefix(s, t):
    """Expected leaves (payloads) of s broadcast to t in jax order, or None if s is not a prefix of t."""
    (ks, vs), (kt, vt) = kind(s), kind(t)
    if ks == 'L':
        return [vs] * len(leaves_of(t))
    if ks != kt:
        return None
    if ks == 'none':
        return []
    if ks == 'dict':
        if sorted(vs) != sorted(vt):
            return None
        pairs = [(vs[n], vt[n]) for n in sorted(vs)]
    else:
        if len(vs) != len(vt):
            return None
        pairs = list(zip(vs, vt))
    out = []
    for a, b in pairs:
        r = prefix(a, b)
        if r is None:
            return None
        out += r
    return out


def scalar_leaf(rng):
    return lambda: enc(np.float32(rng.integers(0, 1000)))


@prop('C19', 2000, 6000)
class C19:
    def gen(self, rng, i):
        leaf = scalar_leaf(rng)
        s = gen_std(rng, leaf, 3)
        t = grow(rng, s, leaf)
        if i % 3 == 1:
            t = mutate(rng, t, leaf)
        elif i % 3 == 2 and i % 2:
            s = mutate(rng, s, leaf)
        return {'s': s, 't': t}

    def run(self, case):
        utils = repo()[5]
        s, t = build(case['s']), build(case['t'])
        exp = prefix(case['s'], case['t'])
        what = f'broadcasting {tu.tree_structure(s)} to {tu.tree_structure(t)}'
        if exp is None:
            refused(lambda: utils.broadcast_pytree_shape(s, t), RuntimeError, what)
            return
        r = accepted(lambda: utils.broadcast_pytree_shape(s, t), what)
        need(tu.tree_structure(r) == tu.tree_structure(t), f'{what}: the result has structure {tu.tree_structure(r)}')
        got = [float(x) for x in tu.tree_leaves(r)]
        want = [float(np.array(x['a'])) for x in exp]
        need(got == want, f'{what}: leaves are {got}, expected {want} (source leaves {[float(x) for x in tu.tree_leaves(s)]})')


@prop('C20', 800, 2400)
class C20:
    def gen(self, rng, i):
        shapes = [[], [3], [2], [2, 3], [3, 3], [2, 1, 3], [1]]
        base = [[3], [2, 3], [3, 3], []][int(rng.integers(0, 4))]

        def leaf():
            r = rng.random()
            if r < .15:
                sh = []
            elif r < .3 and base:
                sh = base[:1]
            else:
                sh = base + RESTS[int(rng.integers(0, 4))][:int(rng.integers(0, 2))]
            return arr(rng, sh)
        a = gen_std(rng, leaf, 2)
        b = grow(rng, a, leaf, 2)
        if i % 4 == 1:
            b = mutate(rng, b, leaf)
        if rng.random() < .5:
            a, b = b, a
        return {'a': a, 'b': b, 'op': ['sub', 'div', 'pow', 'first', 'second', 'fail', 'less', 'int'][int(rng.integers(0, 8))]}

    def run(self, case):
        utils = repo()[5]
        a, b = build(case['a']), build(case['b'])
        pa, pb = prefix(case['a'], case['b']), prefix(case['b'], case['a'])
        seen = []
        op = case['op']

        def f(x, y):
            seen.append((x, y))
            if op == 'fail':
                raise ArithmeticError('operator fails')
            return {'sub': lambda: x - y, 'div': lambda: x / (2.5 + jnp.abs(y)), 'pow': lambda: x * 2 + y * y,
                    'first': lambda: x + 0 * y, 'second': lambda: y + 0 * x,
                    'less': lambda: x < y, 'int': lambda: (x * 2).astype(jnp.int32) - y.astype(jnp.int32)}[op]()
        what = f'{op} of {tu.tree_structure(a)} and {tu.tree_structure(b)}'
        if pa is None and pb is None:
            refused(lambda: utils.execute_binary_operator(f, a, b, 'ctx'), RuntimeError, what)
            return
        big = b if pa is not None else a
        la = [dec(x) for x in (pa if pa is not None else leaves_of(case['a']))]
        lb = [dec(x) for x in (leaves_of(case['b']) if pa is not None else pb)]

        def aligned(x, y):
            if 0 < x.ndim < y.ndim:
                x = x.reshape(x.shape + (1,) * (y.ndim - x.ndim))
            elif 0 < y.ndim < x.ndim:
                y = y.reshape(y.shape + (1,) * (x.ndim - y.ndim))
            return x, y
        exp = []
        try:
            for x, y in zip(la, lb):
                x, y = aligned(x, y)
                exp.append(f(x, y))
        except Exception:
            refused(lambda: utils.execute_binary_operator(f, a, b, 'ctx'), RuntimeError, what + ' with failing leaf operator')
            return
        seen.clear()
        r = accepted(lambda: utils.execute_binary_operator(f, a, b, 'ctx'), what)
        need(tu.tree_structure(r) == tu.tree_structure(big), f'{what}: structure {tu.tree_structure(r)}')
        for k, (x, y) in enumerate(zip(tu.tree_leaves(r), exp)):
            need(close(x, y) and x.dtype == y.dtype, f'{what}: leaf {k} is {x.dtype} {num(x).tolist()}, expected {y.dtype} {num(y).tolist()}')


@prop('C21', 900, 2700)
class C21:
    def gen(self, rng, i):
        dims = lambda n: [int(x) for x in rng.choice([1, 2, 3, 1, 0, 5][:5 if rng.random() < .2 else 3], n)]
        if i % 2:
            a = dims(int(rng.integers(0, 7)))
            b = dims(int(rng.integers(0, 7))) if rng.random() < .4 else [int(x) if rng.random() < .6 else (1 if rng.random() < .6 else int(x) + 1) for x in a]
            if rng.random() < .4:
                b = b[int(rng.integers(0, len(b) + 1)):] if rng.random() < .5 else dims(int(rng.integers(0, 3))) + b
            return {'k': 'right', 'a': a, 'b': b}
        a = dims(int(rng.integers(0, 6)))
        b = a + dims(int(rng.integers(0, 5)) if rng.random() < .9 else int(rng.integers(5, 16))) if rng.random() < .75 else dims(int(rng.integers(0, 6)))
        return {'k': 'left', 'a': a, 'b': b, 'bool': bool(rng.random() < .3), 'self': bool(rng.random() < .15)}

    def run(self, case):
        utils = repo()[5]
        a, b = tuple(case['a']), tuple(case['b'])
        x = jnp.asarray(np.arange(int(np.prod(a)), dtype=np.float32).reshape(a))
        y = jnp.zeros(b)
        if case['k'] == 'right':
            try:
                np.broadcast_shapes(a, b)
                exp = True
            except ValueError:
                exp = False
            got = accepted(lambda: utils.can_right_broadcast(x, y), f'right broadcast test of {a} and {b}')
            need(bool(got) == exp, f'can_right_broadcast is {got} for shapes {a} and {b}')
            return
        what = f'left broadcast setup of {a} for {b}'
        if case.get('bool'):
            x = x % 2 > 0
        if case.get('self'):
            y, b = x, a
            what = f'left broadcast setup of {a} for itself'
        if len(a) == 0:
            r = accepted(lambda: utils.setup_left_broadcast(x, y), what)
            need(exact(r, x), f'{what}: a scalar became {r}')
        elif len(a) > len(b):
            refused(lambda: utils.setup_left_broadcast(x, y), Exception, what)
        else:
            r = accepted(lambda: utils.setup_left_broadcast(x, y), what)
            need(r.shape == a + (1,) * (len(b) - len(a)), f'{what}: the result has shape {r.shape}')
            need(exact(r, x.reshape(r.shape)), f'{what}: the content changed')


class FakeLayer:
    """A deterministic layer whose halting behaviour is given by a table: row i is used in iteration i."""
    def make(self, table, batch, eps, extra=None, cheat=None, start=None, pack=lambda n: {'n': n}, get=lambda s: s['n']):
        from src.jax_act.layers.act import AbstractACTTemplate
        table = jnp.asarray(table, jnp.float32)
        log = []

        class Layer(AbstractACTTemplate):
            def make_controller(self, initial_state, depression_constant, *args, **kwargs):
                log.append(('make', args, dict(kwargs), depression_constant))
                b = self.new_builder(batch, None, eps, depression_constant)
                b = b.define_accumulator_directly('out', jnp.zeros(list(batch) + [2]))
                b = b.define_accumulator_directly('state', {'n': jnp.zeros(batch)})
                if start is not None:
                    # a controller that has done some work already
                    from src.jax_act.core.tensoreditor import TensorEditor
                    e = TensorEditor.edit_controller(b.build(), 'silence')
                    return e.set_iterations(jnp.full(batch, float(start[0]))).set_probabilities(jnp.full(batch, start[1])).build()
                return b.build()

            def setup_lazy_parameters(self, controller, state):
                log.append(('lazy', controller, state))

            def run_iteration(self, controller, state):
                log.append(('run',))
                n = get(state)
                h = jax.lax.dynamic_index_in_dim(table, n, 0, keepdims=False)
                c = controller.cache_update('out', jnp.ones(list(batch) + [2]) * (n + 1.))
                c = c.cache_update('state', {'n': jnp.ones(batch)})
                c = c.iterate_act(h)
                return c, pack(n + 1)
        return Layer(), log


@prop('C22', 100, 300)
class C22:
    def gen(self, rng, i):
        batch = [[3], [2, 2], [1], []][int(rng.integers(0, 4))]
        T = 12
        n = int(np.prod(batch)) if batch else 1
        style = rng.random()
        t = rng.choice([0., .125, .25, .5, .75, 1.], (T, n)) * (1. if style < .5 else .25)
        if i % 20 == 3:
            t[:] = 0.
        if style > .85:
            t[0] = 1.
        return {'batch': batch, 'table': t.reshape([T] + batch).tolist(), 'eps': .125,
                'dep': float(rng.choice([1., .5, .25, 0., 1.5])), 'max': int(rng.choice([0, 1, 2, 3, 5, 10, 12, 130 if i % 10 == 3 else 20])),
                'check': bool(rng.random() < .7), 'jit': bool(rng.random() < .2), 'extra': bool(rng.random() < .5), 'skind': int(rng.integers(0, 6)) if i % 9 else 5, 'defaults': bool(i % 8 == 7),
                'start': [int(rng.integers(1, 12)), float(rng.choice([0., .25, 1.]))] if i % 3 == 2 else None}

    def run(self, case):
        from src.jax_act.layers.act import AbstractACTTemplate
        pack, get = [(lambda n: {'n': n}, lambda s: s['n']), (lambda n: n, lambda s: s), (lambda n: (None, n), lambda s: s[1]),
                     (lambda n: [n, {}, n * .5], lambda s: s[0]), (lambda n: {'f': n / 4., 'e': (), 'z': n > 2}, lambda s: (s['f'] * 4).astype('int32')),
                     (lambda n: {'n': n}, lambda s: s['n'])][case.get('skind', 0)]
        layer, log = FakeLayer().make(case['table'], case['batch'], case['eps'], start=case.get('start'), pack=pack, get=get)
        init = pack(jnp.asarray(0))
        if case.get('skind', 0) == 5:
            # the layer loses a part of the state: no loop can go on with that
            init = dict(init, more=jnp.zeros([2]))
            refused(lambda: layer.execute_act(init, case['dep'], case['max'], case['check']), TypeError, 'execute_act with a layer that loses a key of its state')
            return
        args, kw = ((('x',), {'k': 3}) if case['max'] % 2 else (('x', None, 0), {'k': None, 'z': 0})) if case['extra'] else ((), {})
        mx, dep = case['max'], case['dep']
        if case['defaults']:
            mx, dep, args, kw = 10, 1., (), {}
            go = lambda s: layer.execute_act(s)
        else:
            go = lambda s: layer.execute_act(s, dep, mx, case['check'], *args, **kw)
        what = f'execute_act (max {mx}, depression {dep}, halting table {case["table"]})'
        out = accepted(lambda: (jax.jit(go) if case['jit'] else go)(init), what)
        need(isinstance(out, tuple) and len(out) == 2, f'{what}: the result is {type(out)}')
        mk = [x for x in log if x[0] == 'make']
        need(len(mk) == 1 and mk[0][1:3] == (args, kw) and (case['jit'] or mk[0][3] == dep), f'{what}: controller construction was called with {mk}')
        lz = [x for x in log if x[0] == 'lazy']
        need(len(lz) == 1, f'{what}: lazy setup ran {len(lz)} times')
        if not case['jit']:
            need(tree_exact(lz[0][2], init) and bool(jnp.all(lz[0][1].iterations == (case.get('start') or [0])[0])), f'{what}: lazy setup did not get the initial controller and state')
        # the meaning: plain python loop over the same layer
        layer2, _ = FakeLayer().make(case['table'], case['batch'], case['eps'], start=case.get('start'), pack=pack, get=get)
        c, s, n = layer2.make_controller(init, dep, *args, **kw), init, 0
        while n < mx and not bool(np.asarray(c.halted_batches).all()):
            c, s = layer2.run_iteration(c, s)
            n += 1
        need(tu.tree_structure(out[1]) == tu.tree_structure(init) and int(get(out[1])) == n, f'{what}: ended with the state {out[1]}, expected {n} iterations')
        need(tree_exact(out[1], pack(jnp.asarray(n))), f'{what}: the returned state is {out[1]} after {n} iterations')
        need(type(out[0]) is type(c), f'{what}: returned a {type(out[0]).__name__}')
        for a, b in zip(tu.tree_leaves(out[0]), tu.tree_leaves(c)):
            need(close(jnp.asarray(a), jnp.asarray(b)), f'{what}: the returned controller differs from the one after {n} iterations: {num(a).tolist()} / {num(b).tolist()}')


@prop('C23', 1200, 3600)
class C23:
    RUN = ['good', 'not_tuple', 'list', 'three', 'one', 'no_controller', 'swapped', 'same', 'partly', 'all_pending', 'none', 'dup', 'namedtuple', 'one_partly', 'same_state']
    MAKE = ['good', 'empty', 'state', 'none', 'builder', 'good']

    def gen(self, rng, i):
        s = gen_state(rng, pending=False, n_acc=int(rng.integers(1, 4)), depth=1)
        k = 'run' if i % 3 else 'make'
        v = (self.RUN if k == 'run' else self.MAKE)[int(rng.integers(0, 15 if k == 'run' else 6))]
        names = list(s['acc'])
        pend = [n for n in names if rng.random() < .5]
        if v == 'partly' and len(names) > 1:
            pend = names[:int(rng.integers(1, len(names)))]
        if v == 'one_partly':
            pend = names[-1:]
        if v == 'all_pending':
            pend = names
        old_pend = [n for n in names if rng.random() < .4 and v != 'same_state']
        return {'s': s, 'k': k, 'v': v, 'pend': pend, 'old': old_pend, 'check': bool(rng.random() < .75), 'before': int(rng.integers(0, 4))}

    def run(self, case):
        from src.jax_act.layers.core import ContractValidationWrapper as W
        _, controller, builder, _, _, _ = repo()
        s, v = case['s'], case['v']
        put = lambda c, names: [c := c.cache_update(n, build(s['acc'][n])) for n in names] and c or c
        good = put(make_controller(s), [])
        got, early = [], []
        if case['k'] == 'make':
            res = {'good': good, 'empty': controller.ACT_Controller(make_state(dict(s, acc={}, upd={}, **{'def': {}}))), 'state': good.state, 'none': None,
                   'builder': builder.ControllerBuilder(good.state)}[v]

            class L:
                def make_controller(self, *a, **k):
                    got.append((a, k))
                    return good if early else res
            w = W(L(), case['check'])
            again = lambda: w.make_controller('init')
            f = lambda: w.make_controller('init', 0.5, 7, q=8)
            what = f'make_controller returning {v} (checking {case["check"]})'
            bad = v != 'good'
            exp_call = (('init', 0.5, 7), {'q': 8})
        else:
            orig = put(make_controller(s), case['old'])
            new = put(make_controller(s), case['pend'] if v in ('partly', 'all_pending', 'one_partly') else [])
            st = {'x': 1}
            res = {'good': (new, st), 'not_tuple': new, 'list': [new, st], 'three': (new, st, st), 'one': (new,), 'no_controller': (st, st), 'swapped': (st, new),
                   'same': (orig, st), 'partly': (new, st), 'all_pending': (new, st), 'one_partly': (new, st), 'none': None, 'dup': (new, new),
                   'namedtuple': Pair(new, st), 'same_state': (controller.ACT_Controller(orig.state), st)}[v]

            class L:
                def run_iteration(self, *a, **k):
                    got.append((a, k))
                    return (fresh, st) if early else res
            fresh = put(make_controller(s), [])
            w = W(L(), case['check'])
            again = lambda: w.run_iteration(orig, st)
            f = lambda: w.run_iteration(orig, st)
            what = f'run_iteration returning {v} (pending {case["pend"] if v in ("partly", "all_pending", "one_partly") else []} of {list(s["acc"])}, before {case["old"]}, checking {case["check"]})'
            bad = v not in ('good', 'dup', 'namedtuple', 'same_state')
            if v in ('partly', 'one_partly', 'all_pending'):
                bad = bool(case['pend'])
            exp_call = ((orig, st), {})
        early.append(1)
        for _ in range(case.get('before', 0)):          # flawless calls of the same wrapper
            accepted(again, 'a correct layer')
        early.clear()
        got.clear()
        if bad and case['check']:
            refused(f, (TypeError, RuntimeError), what)
        else:
            r = accepted(f, what)
            need(r is res, f'{what}: the result was replaced')
        need(len(got) == 1, f'{what}: the layer was called {len(got)} times')
        a, k = got[0]
        need(len(a) == len(exp_call[0]) and all(x is y or x == y for x, y in zip(a, exp_call[0])) and k == exp_call[1], f'{what}: the layer got {a} {k}')


@prop('C24', 1600, 4800)
class C24:
    def gen(self, rng, i):
        leaf = lambda: arr(rng, [[2], [1], [], [2, 3], [3]][int(rng.integers(0, 5))])
        a = gen_tree(rng, leaf, 3)
        k = ['merge', 'merge', 'eq', 'eq', 'struct', 'eqbad', 'eqlate', 'eqclose'][i % 8]
        b = map_spec(a, lambda x: x)
        if k == 'merge':
            b = map_spec(a, lambda x: arr(rng, x['s'] + [2]))
            if rng.random() < .3:
                b = {'list': [{'L': x} for x in leaves_of(b)]}
            if rng.random() < .15:
                b = {'list': [b, {'L': leaf()}]}
        elif k in ('eqbad', 'struct') and rng.random() < .7:
            b = mutate(rng, b, leaf) if 'Node' not in json.dumps(b) else {'list': [b]}
        elif k in ('eqlate', 'eqclose'):
            cnt = len(leaves_of(a))
            if cnt:
                which, seen = int(rng.integers(0, cnt)), [-1]
                mode = rng.random()

                def spoil(x):
                    seen[0] += 1
                    if seen[0] != which or not np.size(x['a']):
                        return x
                    v = np.array(x['a'], np.float64).reshape(x['s'])
                    if k == 'eqclose':
                        return enc((v * (1 + 3e-7)).astype(np.float32) if mode < .5 else (v + .01).astype(np.float32))
                    if mode < .3:
                        return arr(rng, x['s'] + [1])
                    if mode < .5:
                        w = np.broadcast_to(v.reshape(-1)[:1], (3,))
                        return enc(w.astype(np.float32))
                    f = v.reshape(-1).copy()
                    if mode < .75 and f.size > 1:      # the same values in other places
                        return enc(np.roll(f, 1).reshape(x['s']).astype(np.float32))
                    f[int(rng.integers(0, f.size))] += .5
                    return enc(f.reshape(x['s']).astype(np.float32))
                b = map_spec(b, spoil)
        out = {'a': a, 'b': b, 'k': k, 'close': bool(rng.random() < .5), 'share': bool(rng.random() < .3)}
        if out['share'] and k == 'merge':
            dup = lambda seen: lambda x: seen.setdefault(json.dumps(x['s']), x) if rng.random() < .6 else x
            which = int(rng.integers(1, 4))
            out['a'], out['b'] = map_spec(a, dup({})) if which & 1 else a, map_spec(b, dup({})) if which & 2 else b
        if k in ('eq', 'eqlate') and rng.random() < .4:
            # nan equals nothing, an infinity itself
            bad = float(rng.choice([np.nan, np.inf, -np.inf]))
            r = int(rng.integers(0, 3))
            put = lambda x: dict(x, a=np.full(x['s'], bad, np.float32).tolist()) if rng.random() < .6 else x
            if r == 0:
                out['b'] = map_spec(b, put)
            else:
                out['a'] = map_spec(a, put)
                out['b'] = out['a'] if k == 'eq' else b
        elif k == 'eq' and rng.random() < .7:
            ka = [int(x) for x in rng.integers(0, 6, int(rng.integers(1, 4)))]
            kb = list(ka)
            if rng.random() < .6:
                kb[int(rng.integers(0, len(kb)))] = int(rng.integers(0, 6))
            if rng.random() < .5:
                # whole numbers, so that values of different types are equal
                one = lambda x: dict(x, a=np.ones(x['s'], np.float32).tolist()) if x['s'] != [2, 3] else x
                out['a'], out['b'] = map_spec(a, one), map_spec(b, one)
            out['types'] = [ka, kb]
        return out

    def run(self, case):
        utils = repo()[5]
        made = {}
        a, b = [interned(case[x], made) if case.get('share') else build(case[x]) for x in 'ab']
        la, lb = tu.tree_leaves(a), tu.tree_leaves(b)
        ta, tb = tu.tree_structure(a), tu.tree_structure(b)
        what = f'{ta} and {tb}'
        if case['k'] == 'merge':
            calls = []

            def f(x, y):
                calls.append((x, y))
                return (len(calls), x, y)
            if len(la) != len(lb):
                refused(lambda: utils.merge_pytrees(f, a, b), Exception, f'merging {what}')
                return
            r = accepted(lambda: utils.merge_pytrees(lambda x, y: (f(x, y), jnp.sum(x) * 3 - jnp.sum(y))[1], a, b), f'merging {what}')
            need(tu.tree_structure(r) == ta, f'merging {what}: structure {tu.tree_structure(r)}')
            need(len(calls) == len(la), f'merging {what}: {len(calls)} calls for {len(la)} leaves')
            for k, (z, x, y) in enumerate(zip(tu.tree_leaves(r), la, lb)):
                need(close(z, jnp.sum(x) * 3 - jnp.sum(y)), f'merging {what}: leaf {k} is wrong')
                need(any(p is x and q is y for p, q in calls), f'merging {what}: the function never got leaf {k} of both')
            return
        if case['k'] == 'struct':
            got = accepted(lambda: utils.are_pytree_structure_equal(a, b), f'comparing structures {what}')
            # the comparison ignores what the leaves are, an absent one included
            blank = lambda t: tu.tree_structure(tu.tree_map(lambda x: None, t))
            need(bool(got) == (blank(a) == blank(b)), f'are_pytree_structure_equal is {got} for {what}')
            return
        if case.get('types'):
            # leaves of other types: equal in contents, yet the trees differ
            conv = [lambda x: x, lambda x: np.asarray(x), lambda x: float(np.sum(num(x))), lambda x: int(np.sum(num(x))), lambda x: bool(np.sum(num(x)) > 0), lambda x: 'text']
            tys = [jax.Array, np.ndarray, float, int, bool, str]
            ka, kb = case['types']
            la = [conv[ka[j % len(ka)]](x) for j, x in enumerate(la)]
            lb = [conv[kb[j % len(kb)]](x) for j, x in enumerate(lb)]
            a, b = tu.tree_unflatten(ta, la), tu.tree_unflatten(tb, lb)
            same = ta == tb and all(ka[j % len(ka)] == kb[j % len(kb)] for j in range(len(la)))
            arrays = [(x, y) for x, y in zip(la, lb) if hasattr(x, 'shape') and hasattr(y, 'shape')]
            rest = [(x, y) for x, y in zip(la, lb) if not hasattr(x, 'shape') and not hasattr(y, 'shape')]
            cmp = (lambda x, y: np.allclose(num(x), num(y), rtol=1e-5, atol=1e-8)) if case['close'] else (lambda x, y: np.array_equal(num(x), num(y)))
            exp = same and all(x.shape == y.shape and cmp(x, y) for x, y in arrays) and all(x == y for x, y in rest)
            got = accepted(lambda: utils.are_pytrees_equal(a, b, case['close']), f'comparing {what}')
            need(bool(got) == exp, f'are_pytrees_equal is {got} for {what} with leaves {[(type(x).__name__, str(x)) for x in la]} and {[(type(x).__name__, str(x)) for x in lb]} (allclose {case["close"]})')
            return
        exp = ta == tb and all(x.shape == y.shape for x, y in zip(la, lb))
        if exp:
            if case['close']:
                exp = all(np.allclose(num(x), num(y), rtol=1e-5, atol=1e-8) for x, y in zip(la, lb))
            else:
                exp = all(np.array_equal(num(x), num(y)) for x, y in zip(la, lb))
        got = accepted(lambda: utils.are_pytrees_equal(a, b, case['close']), f'comparing {what}')
        need(bool(got) == exp, f'are_pytrees_equal is {got} for {what} with leaves {[num(x).tolist() for x in la]} and {[num(x).tolist() for x in lb]} (allclose {case["close"]})')


@prop('C26', 30, 90)
class C26:
    def gen(self, rng, i):
        return {'k': ['direct', 'direct', 'nosetup', 'init'][i % 4], 'start': [0., 1., .5, 0.][(i // 4) % 4], 'mutable': [[], ['params'], ['statistics'], ['params', 'statistics']][(i // 4 * 2 + i % 4) % 4], 'seed': int(rng.integers(0, 99))}

    def run(self, case):
        from flax import linen as nn
        from src.jax_act.frameworks.flax import FlaxACTLayer
        ed = repo()[4]
        log = []

        class Net(FlaxACTLayer):
            def setup(self):
                self.dense = nn.Dense(3)

            def make_controller(self, initial_state, depression_constant):
                b = self.new_builder([2], None, .125, depression_constant)
                c = b.define_accumulator_directly('out', jnp.zeros([2, 3])).build()
                return c if not case['start'] else ed.TensorEditor.edit_controller(c, 'silence').set_probabilities(jnp.array([case['start']] * 2)).build()

            def run_iteration(self, controller, state):
                log.append((controller, state))
                y = self.dense(state)
                c = controller.cache_update('out', y)
                return c.iterate_act(jnp.ones([2]) * .5), state

            def __call__(self, x):
                return self.execute_act(x)

            def probe(self, c, x):
                return self.setup_lazy_parameters(c, x)
        x = jnp.asarray(np.random.default_rng(case['seed']).normal(size=(2, 3)), jnp.float32)
        if case['k'] == 'nosetup':
            class Bare(FlaxACTLayer):
                def make_controller(self, *a):
                    pass

                def run_iteration(self, *a):
                    pass

                def __call__(self, x):
                    return x
            refused(lambda: Bare().init(jax.random.PRNGKey(0), x), NotImplementedError, 'a flax layer without setup')
            return
        net = Net()
        v = accepted(lambda: net.init(jax.random.PRNGKey(0), x), 'initialising a flax act layer')
        need('params' in v and 'dense' in v['params'], f'initialisation created {v}')
        if case['k'] == 'init':
            c, s = accepted(lambda: net.apply(v, x), 'applying a flax act layer')
            need(tree_exact(s, x), 'the state was changed')
            n = {0.: 2, .5: 1, 1.: 0}[case['start']]
            need((num(c.iterations) == n).all(), f'iterations {num(c.iterations)} instead of {n}: the lazy iteration leaked')
            return
        c0 = net.make_controller(x, 1.0)
        log.clear()
        if case['mutable']:
            r, _ = net.apply(v, c0, x, method=Net.probe, mutable=case['mutable'])
        else:
            r = net.apply(v, c0, x, method=Net.probe)
        n = 1 if 'params' in case['mutable'] else 0
        need(len(log) == n, f'lazy setup ran {len(log)} iterations with {case["mutable"]} mutable')
        if n:
            need(log[0][0] is c0 and log[0][1] is x, 'lazy setup did not use the given controller and state')
        need(r is None, f'lazy setup returned {r}')


@prop('C29', 90, 300)
class C29:
    """Three calls of one checked compiled function."""
    SET = ['probabilities', 'residuals', 'iterations', 'epsilon']

    def gen(self, rng, i):
        k = ['checks', 'editor', 'none', 'checks', 'nothing'][i % 5]
        sh = [[2], [], [2, 3], [1], [3, 1]][int(rng.integers(0, 5))]
        calls = []
        for _ in range(3):
            v = np.array(arr(rng, sh, 0, 1)['a'], np.float64).reshape(sh)
            r = rng.random()
            if r < .25:
                v = np.where(rng.random(v.shape) < .6, v - 2, v)
            elif r < .5:
                v = np.where(rng.random(v.shape) < .6, v + 2, v)
            calls.append({'a': v.tolist(), 'd': 'float32', 's': sh})
        return {'k': k, 'set': self.SET[int(rng.integers(0, 4))], 'calls': calls, 'y': arr(rng, sh), 'c': float(rng.choice([0., .5, -1.])),
                'style': int(rng.integers(0, 3)), 'host': bool(rng.random() < .3)}

    def run(self, case):
        _, controller, builder, _, ed, utils = repo()
        from jax.experimental import checkify
        k, y, con = case['k'], dec(case['y']), case['c']
        if k == 'editor':
            f0 = case['set']
            st = builder.ControllerBuilder.new_builder(case['calls'][0]['s']).build().save()
            e = ed.TensorEditor.edit_save(st)
            if f0 == 'epsilon':
                g = lambda x, y: e.set_epsilon(x.reshape(-1)[0]).build().state.epsilon
            else:
                g = lambda x, y: getattr(getattr(e, 'set_' + f0)(x).build().state, f0)
            faults = lambda x: (['low'] if (x < 0).any() else []) + (['high'] if f0 != 'iterations' and (x > 1).any() else [])
            expect = (lambda x: x.reshape(-1)[0]) if f0 == 'epsilon' else lambda x: x
            marks = {'low': ('',), 'high': ('',)}          # whatever the wording
        else:
            def out(x, y):      # divisions by zero, nan and indices out of bounds included
                return {'a': (x * 2 + y, x), 'b': [y - con, (x - x) / (y - y), 1 / (x - x), x.reshape(-1)[jnp.arange(3)]]}

            def g(x, y):
                if k in ('checks', 'nothing'):
                    checkify.check(jnp.all(x >= 0), 'the low mark')
                    checkify.check(jnp.all(x <= 1), 'the high mark')
                return None if k == 'nothing' else out(x, y)
            faults = lambda x: ((['low'] if (x < 0).any() else []) + (['high'] if (x > 1).any() else [])) if k in ('checks', 'nothing') else []
            expect = lambda x: None if k == 'nothing' else out(x, y)
            marks = {'low': ('the low mark',), 'high': ('the high mark',)}
        w = accepted(lambda: utils.jit_and_checkify(g), 'wrapping a function')
        host = np.array(dec(case['calls'][0]))
        for j, a in enumerate(case['calls']):
            x = dec(a)
            if case['host']:
                # one and the same array of numpy, with other contents
                host[...] = x
                x = host
            call = [lambda: w(x, y), lambda: w(x, y=y), lambda: w(y=y, x=x)][case['style']]
            seen = num(x) if not (k == 'editor' and case['set'] == 'epsilon') else num(x).reshape(-1)[:1]
            bad = faults(seen)
            what = f'call {j} ({k} {case["set"] if k == "editor" else ""}) with {num(x).tolist()}'
            try:
                r = call()
            except Exception as err:
                need(bad, f'{what}: refused with {type(err).__name__}: {str(err)[:200]}')
                need(isinstance(err, ValueError) and any(m in str(err) for b in bad for m in marks[b]), f'{what}: {type(err).__name__} {str(err)[:300]!r} is not the error of the failed check {bad}')
                continue
            need(not bad, f'{what}: the failed check {bad} was not raised')
            exp = expect(jnp.array(x))
            need(tu.tree_structure(r) == tu.tree_structure(exp), f'{what}: the output is {r}')
            for p, q in zip(tu.tree_leaves(r), tu.tree_leaves(exp)):
                need(p.shape == q.shape and np.allclose(num(p), num(q), rtol=1e-5, atol=1e-6, equal_nan=True), f'{what}: the output is {r}, expected {exp}')
