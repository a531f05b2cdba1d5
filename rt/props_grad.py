"""Gradients: jax differentiates the real code, and a closed form with the decisions held constant."""
from common import *
from props_core import prop, PROPS


def strict_h(rng, s):
    """Halting probabilities strictly between zero and one: at the bounds of the clipping there is no derivative."""
    n = int(np.prod(s['P']['s'])) if s['P']['s'] else 1
    return enc(np.clip(rng.uniform(.02, .98, n) * rng.choice([1., .6, .2], n), .01, .98).astype(np.float32).reshape(s['P']['s']))


def expand(x, like):
    return x.reshape(x.shape + (1,) * (like.ndim - x.ndim))


def weighted(P, R, I, acc, dfl, dep, eps, ops, args):
    """The act process from the property text, in jax numbers; comparisons have no derivative.  Returns the gathered and the closest call."""
    acc, near = dict(acc), []
    for op, a in zip(ops, args):
        halted = P > 1. - eps
        if op[0] == 'iter':
            h, u = a
            hd = dep * h
            will = P + hd > 1. - eps
            near += [jnp.min(jnp.abs(P + hd - (1. - eps))), jnp.min(jnp.abs(P - (1. - eps)))]
            w = jnp.where(halted, 0., jnp.where(will, 1. - P, hd))
            acc = {n: tu.tree_map(lambda x, y: x + expand(w, x) * y, acc[n], u[n]) for n in acc}
            R = jnp.where(will & ~halted, 1. - P, R)
            P = jnp.where(will, 1., P + hd)
        else:
            near += [jnp.min(jnp.abs(P - (1. - eps)))]
            acc = {n: tu.tree_map(lambda x, y: jnp.where(expand(halted, x), y, x), acc[n], dfl[n]) for n in acc}
            P, R = jnp.where(halted, 0., P), jnp.where(halted, 0., R)
    return (acc, R, P), near


@prop('C28', 70, 300)
class C28:
    def gen(self, rng, i):
        if i % 5 == 4:
            B, D = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            m = lambda *s: arr(rng, list(s), -1., 1.)
            return {'kind': 'layer', 'x': m(B, D), 'W': m(D, D), 'v': m(D), 'g': m(D), 'b': float(rng.uniform(-3., .5)), 'eps': float(rng.choice([.1, .01, .3])),
                    'dep': float(rng.choice([1., .5, 2.])), 'max': int(rng.choice([1, 2, 4, 7])), 'check': bool(rng.random() < .5), 'seed': int(rng.integers(1 << 30)),
                    'mode': str(rng.choice(['unrolled', 'forward']))}
        s = gen_state(rng, pending=False, batch=BATCHES[int(rng.integers(0, 6))], dyadic=False, depth=1, fresh=bool(rng.random() < .4))
        s['mode'] = None
        ops = []
        for _ in range(int(rng.integers(1, 5))):
            if ops and rng.random() < .25:
                ops.append(['reset'])
            else:
                ops.append(['iter', strict_h(rng, s), {n: map_spec(t, lambda a: arr(rng, a['s'])) for n, t in s['acc'].items()}])
        return {'kind': 'steps', 's': s, 'ops': ops, 'seed': int(rng.integers(1 << 30)), 'jit': bool(rng.random() < .2), 'tree': bool(rng.random() < .3),
                'view': [None, None, 'halted_only', 'unhalted_only', 'mask'][int(rng.integers(0, 5))], 'edit': bool(rng.random() < .3)}

    def run(self, case):
        return self.steps(case) if case['kind'] == 'steps' else self.layer(case)

    def compare(self, f, g, args, what, forward=False, jit=False):
        """Values and derivatives of the scalar functions f (real code) and g (closed form) agree."""
        if forward:
            rng = np.random.default_rng(1)
            dirs = tu.tree_map(lambda x: jnp.asarray(rng.normal(size=np.shape(x)), jnp.asarray(x).dtype), args)
            d = lambda q: (lambda a: jax.jvp(q, (a,), (dirs,)))
        else:
            d = lambda q: jax.value_and_grad(q)
        (v1, d1), (v2, d2) = (jax.jit(d(f)) if jit else d(f))(args), d(g)(args)
        need(np.allclose(num(v1), num(v2), rtol=2e-4, atol=2e-4), f'{what}: the loss is {num(v1)}, expected {num(v2)}')
        for (p, a), b in zip(tu.tree_flatten_with_path(d1)[0], tu.tree_leaves(d2)):
            need(np.allclose(num(a), num(b), rtol=2e-3, atol=5e-4),
                 f'{what}: the derivative by {tu.keystr(p)} is {num(a).tolist()}, that of the weighted sum is {num(b).tolist()}')

    def steps(self, case):
        s, ops = case['s'], case['ops']
        st = make_state(s)
        controller = repo()[1]
        rng = np.random.default_rng(case['seed'])
        mask = jnp.asarray(rng.random(st.probabilities.shape) < .5)
        coef = tu.tree_map(lambda x: jnp.asarray(rng.normal(size=np.shape(x)), jnp.float32), (st.accumulators, st.residuals, st.probabilities))
        loss = lambda got: sum(jnp.sum(a * b) for a, b in zip(tu.tree_leaves(got), tu.tree_leaves(coef)))
        args = {'probabilities': st.probabilities, 'residuals': st.residuals, 'accumulators': st.accumulators, 'defaults': st.defaults,
                'depression': jnp.asarray(s['dep'], jnp.float32),
                'steps': [(dec(o[1]), {n: build(t) for n, t in o[2].items()}) if o[0] == 'iter' else () for o in ops]}
        got, near = weighted(args['probabilities'], args['residuals'], None, args['accumulators'], args['defaults'], s['dep'], s['eps'], ops, args['steps'])
        if min(float(x) for x in near) < 1e-5 or float(jnp.min(jnp.abs(got[2] - (1. - s['eps'])))) < 1e-5:
            raise Skip()

        def real(a):
            c = controller.ACT_Controller(st.replace(depression_constant=a['depression']) if case['edit'] else st.replace(probabilities=a['probabilities'], residuals=a['residuals'], accumulators=a['accumulators'],
                                                     defaults=a['defaults'], depression_constant=a['depression']))
            if case['edit']:
                e = repo()[4].TensorEditor.edit_controller(c, 'silence').set_probabilities(a['probabilities']).set_residuals(a['residuals'])
                for n in st.accumulators:
                    e = e.set_accumulator(n, a['accumulators'][n]).set_defaults(n, a['defaults'][n])
                c = e.build()
            for o, x in zip(ops, a['steps']):
                if o[0] == 'iter':
                    for n, u in x[1].items():
                        c = c.cache_update(n, u)
                    c = c.iterate_act(x[0])
                else:
                    c = c.reset_batches()
                if case['tree']:
                    l, t = tu.tree_flatten(c)
                    c = tu.tree_unflatten(t, l)
            if case['view']:
                v = c.make_viewer()
                c = v.mask_data(mask) if case['view'] == 'mask' else getattr(v, case['view'])()
            return loss((c.accumulators, c.residuals, c.probabilities) if case['view'] else ({n: c[n] for n in c.accumulators}, c.residuals, c.probabilities))

        def ideal(a):
            got = weighted(a['probabilities'], a['residuals'], None, a['accumulators'], a['defaults'], a['depression'], s['eps'], ops, a['steps'])[0]
            if case['view']:
                halted = got[2] > 1. - s['eps']
                keep = {'halted_only': halted, 'unhalted_only': ~halted, 'mask': mask}[case['view']]
                got = tu.tree_map(lambda x: jnp.where(expand(keep, x), x, 0.), got)
            return loss(got)
        self.compare(real, ideal, args, f"{[o[0] for o in ops]} (eps {s['eps']}, depression {s['dep']})", jit=case['jit'])

    def layer(self, case):
        from src.jax_act.layers.act import AbstractACTTemplate
        dep, eps, mx = case['dep'], case['eps'], case['max']
        args = {k: dec(case[k]) for k in ('x', 'W', 'v', 'g')}

        def one(a, x):
            x = jnp.tanh(x @ a['W'])
            return x, jax.nn.sigmoid(x @ a['v'] + case['b']) * .97 + .01, x * a['g']
        # how many iterations are due, and whether a decision is too close to call
        x, P, n = args['x'], jnp.zeros(args['x'].shape[0]), 0
        while n < mx and not bool((P > 1. - eps).all()):
            x, h, _ = one(args, x)
            if float(jnp.min(jnp.abs(P + dep * h - (1. - eps)))) < 1e-4:
                raise Skip()
            P = jnp.where(P + dep * h > 1. - eps, 1., P + dep * h)
            n += 1
        rng = np.random.default_rng(case['seed'])
        ca, cr = jnp.asarray(rng.normal(size=args['x'].shape), jnp.float32), jnp.asarray(rng.normal(size=args['x'].shape[:1]), jnp.float32)

        class Layer(AbstractACTTemplate):
            def __init__(self, a):
                self.a = a

            def make_controller(self, state, *args, **kw):
                b = self.new_builder([int(state.shape[0])], None, eps, dep)
                return b.define_accumulator_directly('out', state * .5).build()

            def setup_lazy_parameters(self, controller, state):
                pass

            def run_iteration(self, c, state):
                x, h, y = one(self.a, state)
                return c.cache_update('out', y).iterate_act(h), x

        def real(a):
            layer = Layer(a)
            if case['mode'] == 'forward':
                c, x = layer.execute_act(a['x'], dep, mx, case['check'])
            else:
                c, x = layer.make_controller(a['x']), a['x']
                for _ in range(n):
                    c, x = layer.run_iteration(c, x)
            return jnp.sum(c['out'] * ca) + jnp.sum(c.residuals * cr) + jnp.sum(x)

        def ideal(a):
            x, ops, steps = a['x'], [], []
            for _ in range(n):
                x, h, y = one(a, x)
                ops.append(['iter'])
                steps.append((h, {'out': y}))
            z = jnp.zeros(a['x'].shape[0])
            (acc, R, _), _ = weighted(z, z, None, {'out': a['x'] * .5}, None, dep, eps, ops, steps)
            return jnp.sum(acc['out'] * ca) + jnp.sum(R * cr) + jnp.sum(x)
        self.compare(real, ideal, args, f"{'execute_act' if case['mode'] == 'forward' else 'a layer'} over {n} iterations", forward=case['mode'] == 'forward')
