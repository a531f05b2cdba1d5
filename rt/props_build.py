"""Viewer, builder, editor, state properties."""
from common import *
from props_core import refused, accepted, Snap, pend_all
import math

PROPS = {}


def prop(pid, quick, thorough):
    def deco(cls):
        PROPS[pid] = cls()
        PROPS[pid].n = {'quick': quick, 'thorough': thorough}
        return cls
    return deco


def infect(rng, s):
    """Sprinkle inf and nan over the leaves."""
    def f(a):
        v = np.array(a['a'], np.float64).reshape(a['s'])
        v = np.where(rng.random(v.shape) < .3, float(rng.choice([np.inf, -np.inf, np.nan])), v)
        return {'a': v.tolist(), 'd': a['d'], 's': a['s']}
    for k in ('acc', 'def', 'upd'):
        s[k] = {n: (None if t is None else map_spec(t, f)) for n, t in s[k].items()}
    s['R'] = f(s['R'])
    return s


@prop('C09', 700, 2100)
class C09:
    def gen(self, rng, i):
        s = gen_state(rng, pending=None)
        if rng.random() < .4:
            infect(rng, s)
        op = ['mask', 'halted', 'unhalted', 'mask', 'bad', 'chain'][i % 6]
        sh = s['P']['s']
        m = {'a': (rng.random(sh) < .5).tolist(), 'd': 'bool', 's': sh}
        if op == 'bad':
            r = int(rng.integers(0, 7))
            if r == 0:
                m = {'a': np.ones(sh).tolist(), 'd': 'int32', 's': sh}
            elif r > 4:
                m = {'a': rng.integers(0, 3, sh).tolist(), 'd': ['uint8', 'int8', 'float16', 'uint32', 'int16'][int(rng.integers(0, 5))], 's': sh}
            elif r == 1:
                m = {'a': np.ones(sh).tolist(), 'd': 'float32', 's': sh}
            else:
                alt = [sh + [1], [1] + sh, sh + [3], [1] * len(sh)]
                alt = [x for x in alt if x != sh]
                x = alt[int(rng.integers(0, len(alt)))]
                m = {'a': np.ones(x, bool).tolist(), 'd': 'bool', 's': x}
        return {'s': s, 'op': op, 'm': m, 'mode': int(rng.integers(0, 2))}

    def run(self, case):
        _, controller, _, viewer, _, _ = repo()
        st = make_state(case['s'])
        v = viewer.ACTViewer(st) if case['mode'] else controller.ACT_Controller(st).make_viewer()
        P = np.asarray(st.probabilities)
        halted = P > st.probabilities.dtype.type(1 - st.epsilon)
        m = dec(case['m'])
        op = case['op']
        if op == 'bad':
            refused(lambda: v.mask_data(m), ValueError, f'a mask of dtype {m.dtype} and shape {m.shape} for batch shape {P.shape}')
            return
        was = Snap(st)
        keep = np.asarray(m)
        if op == 'mask':
            new = accepted(lambda: v.mask_data(m), 'masking')
        elif op == 'halted':
            new, keep = accepted(v.halted_only, 'halted_only'), halted
        elif op == 'unhalted':
            new, keep = accepted(v.unhalted_only, 'unhalted_only'), ~halted
        else:
            m2 = ~halted
            new, keep = accepted(lambda: v.mask_data(m).mask_data(jnp.asarray(m2)), 'masking twice'), keep & m2
        self.compare(was, new.save(), keep, op)
        need(type(new) is type(v), f'{op}: the result is a {type(new).__name__}')

    def compare(self, was, new, keep, what):
        def same(a, b, nm):
            need(a.shape == b.shape and a.dtype == b.dtype, f'{what}: {nm} became {b.shape} {b.dtype}, was {a.shape} {a.dtype}')
            exp = np.where(left(keep, a.shape), np.asarray(a), np.zeros_like(np.asarray(a)))
            need(np.array_equal(np.asarray(b), exp, equal_nan=True), f'{what}: {nm} is {num(b).tolist()}, expected {exp.tolist()} (keep {keep.tolist()})')
        for f in ('probabilities', 'residuals', 'iterations'):
            same(getattr(was, f), getattr(new, f), f)
        for f in ('accumulators', 'defaults', 'updates'):
            a, b = getattr(was, f), getattr(new, f)
            need(sorted(a) == sorted(b), f'{what}: names of {f} became {sorted(b)}')
            for n in a:
                need(tu.tree_structure(a[n]) == tu.tree_structure(b[n]), f'{what}: tree of {f}[{n!r}] changed to {tu.tree_structure(b[n])}')
                for k, (x, y) in enumerate(zip(tu.tree_leaves(a[n]), tu.tree_leaves(b[n]))):
                    same(x, y, f'leaf {k} of {f}[{n!r}]')
        same_fields(was, new, but=('probabilities', 'residuals', 'iterations', 'accumulators', 'defaults', 'updates'), what=what)


@prop('C10', 400, 1200)
class C10:
    def gen(self, rng, i):
        return {'s': gen_state(rng, pending=None), 'fn': ['affine', 'reshape', 'fail', 'cast', 'count', 'sum'][i % 6],
                'fail_at': int(rng.integers(0, 12)), 'err': ['ValueError', 'TypeError', 'KeyError', 'ZeroDivisionError'][int(rng.integers(0, 4))]}

    def run(self, case):
        import builtins
        st = make_state(case['s'])
        v = repo()[3].ACTViewer(st)
        was, snap = Snap(st), Snapshot(st)
        fn = case['fn']
        pure = {'affine': lambda x: x * 2 + 1, 'reshape': lambda x: jnp.reshape(x, (1,) + x.shape), 'cast': lambda x: x.astype(jnp.float16),
                'count': lambda x: x - 3, 'sum': lambda x: jnp.sum(x) + x[..., None], 'fail': lambda x: x + 1}[fn]
        calls = []

        def f(x):
            calls.append(x)
            if fn == 'fail' and len(calls) - 1 == case['fail_at']:
                raise getattr(builtins, case['err'])('the function fails here')
            return pure(x)
        total = 3 + sum(len(tu.tree_leaves(t)) for g in ('accumulators', 'defaults', 'updates') for t in getattr(was, g).values())
        if fn == 'fail' and case['fail_at'] < total:
            refused(lambda: v.transform(f), RuntimeError, 'transform with a failing function')
            snap.check('failing transform')
            return
        new = accepted(lambda: v.transform(f), 'transform')
        need(type(new) is type(v), f'transform returned a {type(new).__name__}')
        snap.check('transform')
        st2 = new.save()
        for g in ('probabilities', 'residuals', 'iterations'):
            need(exact(getattr(st2, g), pure(getattr(was, g))), f'transform: {g} is {getattr(st2, g)}, expected {pure(getattr(was, g))}')
        for g in ('accumulators', 'defaults', 'updates'):
            a, b = getattr(was, g), getattr(st2, g)
            need(sorted(a) == sorted(b), f'transform: names of {g} became {sorted(b)}')
            for n in a:
                need((a[n] is None) == (b[n] is None), f'transform: {g}[{n!r}] is {b[n]}, was {a[n]}')
                need(tree_exact(b[n], tu.tree_map(pure, a[n])), f'transform: {g}[{n!r}] is {b[n]}, expected the function of {a[n]}')
        same_fields(was, st2, but=('probabilities', 'residuals', 'iterations', 'accumulators', 'defaults', 'updates'), what='transform')
        need(len(calls) == total, f'transform called the function {len(calls)} times for {total} tensors')


@prop('C11', 400, 1200)
class C11:
    """Every operation, legal or not, on shared objects; the old objects are inspected afterwards."""
    def gen(self, rng, i):
        s = gen_state(rng, pending=[None, True, False][i % 3], n_acc=int(rng.integers(1, 4)))
        n = list(s['acc'])[0]
        ops = []
        for _ in range(int(rng.integers(2, 6))):
            ops.append(str(rng.choice(['cache', 'iter', 'reset', 'mask', 'halted', 'unhalted', 'transform', 'define', 'shape', 'delete',
                                       'set_p', 'set_r', 'set_i', 'set_e', 'set_a', 'set_d', 'set_u', 'attr', 'flatten', 'status', 'badcache',
                                       'redefine', 'replace'])))
        return {'s': s, 'ops': ops, 'h': gen_h(rng, s), 'n': n, 't': map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d'])),
                'm': {'a': (rng.random(s['P']['s']) < .5).tolist(), 'd': 'bool', 's': s['P']['s']},
                'emode': ['standard', 'silence'][int(rng.integers(0, 2))]}

    def run(self, case):
        states, controller, builder, viewer, ed, _ = repo()
        st = make_state(case['s'])
        snaps = [Snapshot(st)]
        objs = {'c': controller.ACT_Controller(st), 'v': viewer.ACTViewer(st), 'b': builder.ControllerBuilder(st), 'e': ed.TensorEditor.edit_save(st, case['emode'])}
        h, t, m, n = dec(case['h']), build(case['t']), dec(case['m']), case['n']
        args = [np.array(x) for x in tu.tree_leaves((h, t, m))]
        hist = []
        for op in case['ops']:
            before = {k: (o, dict(o.__dict__)) for k, o in objs.items()}
            hist.append(op)
            c, v, b, e = objs['c'], objs['v'], objs['b'], objs['e']
            F = {'cache': ('c', lambda: c.cache_update(n, t)), 'iter': ('c', lambda: c.iterate_act(h)), 'reset': ('c', lambda: c.reset_batches()),
                 'badcache': ('c', lambda: c.cache_update('unknown!', t)),
                 'mask': ('v', lambda: v.mask_data(m)), 'halted': ('v', lambda: v.halted_only()), 'unhalted': ('v', lambda: v.unhalted_only()),
                 'transform': ('v', lambda: v.transform(lambda x: x + 1)),
                 'define': ('b', lambda: b.define_accumulator_directly('fresh', t)), 'redefine': ('b', lambda: b.define_accumulator_directly(n, t)),
                 'shape': ('b', lambda: b.define_accumulator_by_shape('shaped', [list(h.shape) + [2]])),
                 'delete': ('b', lambda: b.delete_definition(n)),
                 'set_p': ('e', lambda: e.set_probabilities(h)), 'set_r': ('e', lambda: e.set_residuals(h)), 'set_i': ('e', lambda: e.set_iterations(h)),
                 'set_e': ('e', lambda: e.set_epsilon(.2)), 'set_a': ('e', lambda: e.set_accumulator(n, t)),
                 'set_d': ('e', lambda: e.set_defaults(n, t)), 'set_u': ('e', lambda: e.set_updates(n, t)),
                 'status': ('c', lambda: (c.halted_batches, c.is_any_halted, c.updates_ready_to_commit) and c),
                 'replace': ('c', lambda: controller.ACT_Controller(c.state.replace(iterations=h, updates={}))),
                 'flatten': ('c', lambda: tu.tree_map(lambda x: x, c))}
            what = ' then '.join(hist)
            if op == 'attr':
                for o in objs.values():
                    for at, val in (('state', st), ('whatever', 1), ('error_mode', 'silence'), ('probabilities', h), ('accumulators', {})):
                        refused(lambda: setattr(o, at, val), AttributeError, f'assigning {at} of a {type(o).__name__}')
                new = None
            else:
                k, f = F[op]
                try:
                    new = f()
                except Fail:
                    raise
                except Exception:
                    new = None
            for k2, (o, d) in before.items():
                need(set(o.__dict__) == set(d) and all(o.__dict__[x] is d[x] for x in d), f'{what}: attributes of the original {type(o).__name__} changed')
            for sn in snaps:
                sn.check(what)
            for x, y in zip(tu.tree_leaves((h, t, m)), args):
                need(np.array_equal(np.asarray(x), y, equal_nan=y.dtype.kind == 'f'), f'{what}: an argument was changed')
            if new is not None:
                if op not in ('status',):
                    need(new is not objs[k], f'{what}: the operation returned the object itself')
                objs[k] = new
                if new.state is not snaps[-1].state:
                    snaps.append(Snapshot(new.state))


def gen_shapes(rng, batch, depth=2, bad=False):
    """A tree of shape lists; leaves are {'raw': [...]}."""
    def leaf():
        return [int(x) for x in list(batch) + RESTS[int(rng.integers(0, len(RESTS)))]]
    def go(d):
        if d == 0 or rng.random() < .5:
            return {'raw': leaf()}
        k = ['dict', 'tuple', 'list', 'Pair', 'Node'][int(rng.integers(0, 5))]
        m = 2 if k in ('Pair', 'Node') else int(rng.integers(1, 4))
        ch = [go(d - 1) for _ in range(m)]
        return {k: ({str(a): x for a, x in zip(rng.permutation(['q', 'b', 'zz'])[:m], ch)} if k == 'dict' else ch)}
    return go(depth)


@prop('C12', 500, 1500)
class C12:
    def gen(self, rng, i):
        s = gen_state(rng, pending=[False, None, True][i % 3], n_acc=int(rng.integers(0, 4)))
        ops = []
        for _ in range(int(rng.integers(2, 7))):
            r = rng.random()
            nm = str(rng.choice(NAMES))
            if rng.random() < .3:
                # a name that nearly is one in use
                near = str(rng.choice(list(s['acc']) or NAMES))
                nm = [f' {near}', f'{near} ', near.swapcase(), f'{near}_', f'_{near}', near[:1], '', near + '\n'][int(rng.integers(0, 8))]
            if r < .45:
                ops.append(['define', nm, gen_tree(rng, lambda: gen_leaf(rng, s['P']['s']), 2)])
            elif r < .65:
                ops.append(['shape', nm, gen_shapes(rng, s['P']['s']), float(rng.choice([0., 1., -2.5]))])
            else:
                ops.append(['delete', nm])
        return {'s': s, 'ops': ops}

    def run(self, case):
        _, controller, builder, _, _, _ = repo()
        b = builder.ControllerBuilder(make_state(case['s']))
        for j, op in enumerate(case['ops']):
            old = b.state
            was, snap = Snap(old), Snapshot(old)
            what = f'step {j} ({op[0]} {op[1]!r}) with {sorted(was.accumulators)}'
            if op[0] == 'delete':
                if op[1] not in was.accumulators:
                    refused(lambda: b.delete_definition(op[1]), Exception, what + ' of an unknown name')
                    continue
                b = accepted(lambda: b.delete_definition(op[1]), what)
                item = None
            elif op[0] == 'define':
                item = build(op[2])
                b = accepted(lambda: b.define_accumulator_directly(op[1], item), what)
            else:
                b = accepted(lambda: b.define_accumulator_by_shape(op[1], build(op[2]), fill=op[3]), what)
                item = tu.tree_map(lambda sh: jnp.full(sh, op[3], jnp.float32), build(op[2]), is_leaf=lambda x: isinstance(x, list) and all(isinstance(y, int) for y in x))
            new = b.state
            snap.check(what)
            for f in ('defaults', 'accumulators', 'updates'):
                a, d = dict(getattr(was, f)), getattr(new, f)
                if op[0] == 'delete':
                    a.pop(op[1])
                else:
                    a[op[1]] = item if f != 'updates' else None
                need(sorted(a) == sorted(d), f'{what}: names of {f} are {sorted(d)}, expected {sorted(a)}')
                for n in a:
                    need(tree_exact(a[n], d[n]), f'{what}: {f}[{n!r}] is {d[n]}, expected {a[n]}')
            same_fields(was, new, but=('defaults', 'accumulators', 'updates'), what=what)
            c = b.build()
            need(isinstance(c, controller.ACT_Controller) and tree_exact(c.save(), new), f'{what}: the built controller does not hold the state of the builder')


@prop('C13', 1000, 3000)
class C13:
    def gen(self, rng, i):
        if i % 2:
            batch = [[3], 3, [2, 3], [], [1], 1, [4, 1], [2, 2, 2]][int(rng.integers(0, 8))]
            r = rng.random()
            eps = float(rng.choice([0., 1., -.1, 1.5, np.nan, np.inf, -np.inf])) if r < .35 else float(rng.choice([1e-4, .5, .999, 1e-30, .25]))
            dt = [None, 'float32', 'float16', 'bfloat16', 'int32', 'bool', 'uint8', 'complex64'][int(rng.integers(0, 8))]
            return {'k': 'new', 'batch': batch, 'eps': eps, 'dt': dt, 'dep': float(rng.choice([1., .5, 2.])), 'via': int(rng.integers(0, 2))}
        s = gen_state(rng, pending=False, n_acc=int(rng.integers(0, 3)), batch=[[3], [2, 3], [], [2, 1, 2]][int(rng.integers(0, 4))])
        t = gen_tree(rng, lambda: gen_leaf(rng, s['P']['s']), 2)
        cnt = len(leaves_of(t))
        fault = None
        if rng.random() < .4:
            t = map_spec(t, lambda a: dict(a, d=['float16', 'bfloat16', 'float32'][int(rng.integers(0, 3))]))
        if cnt and rng.random() < .65:
            which, seen = int(rng.integers(0, cnt)), [-1]
            fault = ['int32', 'bool', 'short', 'batch', 'uint8', 'swap', 'complex64'][int(rng.integers(0, 7))]

            def spoil(a):
                seen[0] += 1
                if seen[0] != which:
                    return a
                sh, nb = list(a['s']), len(s['P']['s'])
                if fault in ('int32', 'bool', 'uint8', 'complex64'):
                    return {'a': np.ones(sh).tolist(), 'd': fault, 's': sh}
                if fault == 'short':
                    return arr(rng, sh[:nb - 1] if nb else sh)
                if fault == 'swap':
                    return arr(rng, sh[:nb][::-1] + sh[nb:])
                if nb:
                    k = int(rng.integers(0, nb))
                    sh[k] += 1
                return arr(rng, sh)
            t = map_spec(t, spoil)
        return {'k': 'define', 's': s, 't': t, 'fault': fault}

    def run(self, case):
        states, controller, builder, viewer, ed, _ = repo()
        B = builder.ControllerBuilder
        if case['k'] == 'new':
            dt = None if case['dt'] is None else jnp.dtype(case['dt'])
            make = lambda: B.new_builder(case['batch'], dt, case['eps'], case['dep'])
            if case['via']:
                from src.jax_act.layers.core import AbstractControllerContract as A
                class Layer(A):
                    def make_controller(self, *a): pass
                    def run_iteration(self, *a): pass
                    def setup_lazy_parameters(self, *a): pass
                make = lambda: Layer().new_builder(case['batch'], dt, case['eps'], case['dep'])
            what = f"new builder with batch {case['batch']}, dtype {case['dt']}, epsilon {case['eps']}"
            ok = 0. < case['eps'] < 1. and case['dt'] in (None, 'float32', 'float16', 'bfloat16')
            if not ok:
                refused(make, ValueError, what)
                return
            b = accepted(make, what)
            st = b.state
            sh = tuple(case['batch']) if isinstance(case['batch'], list) else (case['batch'],)
            for f in ('probabilities', 'residuals', 'iterations'):
                x = getattr(st, f)
                need(x.shape == sh and x.dtype == (dt or jnp.float32), f'{what}: {f} has shape {x.shape} and dtype {x.dtype}')
                need((num(x) == 0).all(), f'{what}: {f} does not start at zero')
            for f in ('defaults', 'accumulators', 'updates'):
                need(isinstance(getattr(st, f), dict) and not getattr(st, f), f'{what}: {f} is not empty')
            need(len({id(st.defaults), id(st.accumulators), id(st.updates)}) == 3, f'{what}: containers are shared')
            need(float(st.epsilon) == case['eps'] and float(st.depression_constant) == case['dep'], f'{what}: epsilon {st.epsilon}, depression {st.depression_constant}')
            if case['dep'] == 1.:
                d = B.new_builder(3).state
                need(d.epsilon == 1e-4 and d.depression_constant == 1. and d.probabilities.dtype == jnp.float32, 'defaults of new_builder changed')
            return
        st = make_state(case['s'])
        b = B(st)
        t = build(case['t'])
        nb = st.probabilities.ndim
        lv = tu.tree_leaves(t)
        flo = [jnp.issubdtype(x.dtype, jnp.floating) for x in lv]
        shp = [x.ndim >= nb and x.shape[:nb] == st.probabilities.shape for x in lv]
        what = f'definition with leaves {[(x.shape, str(x.dtype)) for x in lv]} for batch shape {st.probabilities.shape}'
        if all(flo) and all(shp):
            accepted(lambda: b.define_accumulator_directly('new', t), what)
        else:
            refused(lambda: b.define_accumulator_directly('new', t), TypeError if all(shp) else ValueError if all(flo) else (TypeError, ValueError), what)


@prop('C14', 700, 2100)
class C14:
    def gen(self, rng, i):
        batch = BATCHES[int(rng.integers(0, len(BATCHES)))]
        bad = None
        t = gen_shapes(rng, batch, 2)
        if rng.random() < .3:
            bad = [3, 1.5, 'x', 'tuple', 'floatlist', 'array'][int(rng.integers(0, 6))]
        return {'batch': batch, 'core': [None, None, 'float16', 'bfloat16'][int(rng.integers(0, 4))], 't': t, 'dt': ['float32', 'float16', 'bfloat16', None][int(rng.integers(0, 4))],
                'fill': [0., 1., -2.5, .125, None, .1, 1e-3, 257., 7e4][int(rng.integers(0, 9))], 'bad': bad, 'where': int(rng.integers(0, 3))}

    def run(self, case):
        B = repo()[2].ControllerBuilder
        b = B.new_builder(case['batch'], None if case['core'] is None else jnp.dtype(case['core']), .125)
        t = build(case['t'])
        sh = [x for x in leaves_of(case['t'])]
        if case['bad'] is not None:
            bad = {'tuple': tuple(sh[0]) if len(sh[0]) else 7, 'floatlist': [2.5, 3], 'array': jnp.ones([2])}.get(case['bad'], case['bad'])
            tree = [(t, bad), {'a': t, 'b': [bad, t]}, (bad,)][case['where']]
            refused(lambda: b.define_accumulator_by_shape('n', tree), ValueError, f'a shape tree with leaf {bad!r}')
            return
        kw = {}
        if case['dt']:
            kw['dtype'] = jnp.dtype(case['dt'])
        if case['fill'] is not None:
            kw['fill'] = case['fill']
        what = f'definition by shape {t} with {kw}'
        st = accepted(lambda: b.define_accumulator_by_shape('n', t, **kw), what).state
        isl = lambda x: isinstance(x, list) and all(isinstance(y, int) for y in x)
        exp = tu.tree_map(lambda s: jnp.full(s, kw.get('fill', 0.), kw.get('dtype', jnp.float32)), t, is_leaf=isl)
        for f in ('defaults', 'accumulators'):
            need(tree_exact(getattr(st, f)['n'], exp), f'{what}: {f} is {getattr(st, f)["n"]}, expected {exp}')
        need(st.updates == {'n': None}, f'{what}: updates are {st.updates}')


@prop('C15', 600, 1800)
class C15:
    def gen(self, rng, i):
        return {'s': gen_state(rng, pending=None, n_acc=int(rng.integers(0, 4)), depth=3),
                'o': ['state', 'controller', 'viewer', 'builder', 'editor', 'meta'][i % 6], 'emode': ['standard', 'silence'][int(rng.integers(0, 2))],
                'm': [int(rng.integers(0, 9)), int(rng.integers(1, 20))]}

    def run(self, case):
        states, controller, builder, viewer, ed, _ = repo()
        from src.jax_act.layers.act import ACTMetaData
        st = make_state(case['s'])
        k = case['o']
        if k == 'meta':
            o = ACTMetaData(*case['m'])
            l, t = tu.tree_flatten(o)
            o2 = tu.tree_unflatten(t, l)
            need(type(o2) is ACTMetaData and (o2.num_iterations, o2.max_num_iterations) == tuple(case['m']), f'metadata {case["m"]} became {o2}')
            o3 = tu.tree_map(lambda x: x + 100, o)
            need((o3.num_iterations, o3.max_num_iterations) == tuple(x + 100 for x in case['m']), f'mapped metadata became {o3}')
            o4 = o.increase_counter()
            need((o4.num_iterations, o4.max_num_iterations) == (case['m'][0] + 1, case['m'][1]), f'increase_counter gave {o4}')
            return
        mk = {'state': lambda s: s, 'controller': controller.ACT_Controller, 'viewer': viewer.ACTViewer, 'builder': builder.ControllerBuilder,
              'editor': lambda s: ed.TensorEditor(s, case['emode'])}[k]
        o = mk(st)
        snap = Snapshot(st)
        get = (lambda o: o) if k == 'state' else (lambda o: o.state)
        l, t = tu.tree_flatten(o)
        o2 = accepted(lambda: tu.tree_unflatten(t, l), f'rebuilding a {k}')
        need(type(o2) is type(o), f'rebuilding a {k} gave a {type(o2).__name__}')
        same_fields(st, get(o2), what=f'rebuilding a {k}')
        if k == 'editor':
            need(o2.error_mode == case['emode'], f'the error mode became {o2.error_mode}')
        if k != 'state':
            refused(lambda: setattr(o2, 'state', st), AttributeError, f'assigning to a rebuilt {k}')
        # mapping: every tensor gets its own image, in place
        f = lambda x: x * 3 + 1 if hasattr(x, 'dtype') or isinstance(x, (int, float)) else x
        o3 = tu.tree_map(f, o)
        s3 = get(o3)
        for nm in FIELDS:
            a, b = getattr(st, nm), getattr(s3, nm)
            if isinstance(a, dict):
                need(isinstance(b, dict) and sorted(a) == sorted(b), f'mapping a {k}: names of {nm} became {b}')
                for n in a:
                    need(tree_exact(b[n], tu.tree_map(f, a[n])), f'mapping a {k}: {nm}[{n!r}] is {b[n]}')
            else:
                need(tree_exact(b, tu.tree_map(f, a)), f'mapping a {k}: {nm} is {b}, expected {f(a)}')
        # distinct leaf values survive in order
        l4 = [jnp.asarray(float(j)) for j in range(len(l))]
        o4 = tu.tree_unflatten(t, l4)
        need([float(x) for x in tu.tree_leaves(o4)] == [float(j) for j in range(len(l))], f'leaves of a rebuilt {k} are permuted')
        snap.check(f'flattening a {k}')
        # a controller with different names / fields must have another structure
        need(tu.tree_structure(o) == tu.tree_structure(o2), f'the structure of a {k} changed by rebuilding')


@prop('C16', 800, 2400)
class C16:
    def gen(self, rng, i):
        s = gen_state(rng, pending=None, n_acc=int(rng.integers(0, 3)), depth=1)
        s2 = gen_state(rng, pending=None, n_acc=int(rng.integers(0, 3)), depth=1, dep=float(rng.choice([0., .5, 3.])))
        s2['mode'] = 'silence'
        r = rng.random()
        which = [FIELDS[i % 9]] if i % 2 else [f for f in FIELDS if rng.random() < .5]
        zero = bool(rng.random() < .3)
        own = [f for f in FIELDS if rng.random() < .3] if rng.random() < .5 else []
        return {'s': s, 's2': s2, 'which': which, 'zero': zero, 'own': own}

    def run(self, case):
        a, b = make_state(case['s']), make_state(case['s2'])
        kw = {f: getattr(a if f in case.get('own', ()) else b, f) for f in case['which']}
        if case['zero']:
            for f in ('epsilon', 'depression_constant'):
                if f in kw:
                    kw[f] = 0.0
            for f in ('defaults', 'accumulators', 'updates'):
                if f in kw:
                    kw[f] = {}
        snap = Snapshot(a)
        n = accepted(lambda: a.replace(**kw), f'replacing {sorted(kw)}')
        for f in FIELDS:
            exp = kw.get(f, getattr(a, f))
            need(getattr(n, f) is exp, f'replacing {sorted(kw)}: field {f} is {getattr(n, f)}, expected {exp}')
        need(n is not a and type(n) is type(a), 'replace returned the original')
        snap.check(f'replacing {sorted(kw)}')


VIOL = ['ok', 'ok', 'low', 'high', 'nan', 'shape', 'dtype', 'edge', 'inf', 'just high', 'just low']


@prop('C17', 800, 2400)
class C17:
    def gen(self, rng, i):
        s = gen_state(rng, pending=None, n_acc=int(rng.integers(1, 4)))
        k = ['probabilities', 'residuals', 'iterations', 'epsilon', 'accumulator', 'defaults', 'updates'][i % 7]
        mode = 'standard' if rng.random() < .8 else 'silence'
        case = {'s': s, 'k': k, 'mode': mode}
        own = s['dt']
        sh = s['P']['s']
        if k in ('probabilities', 'residuals', 'iterations'):
            v = VIOL[int(rng.integers(0, len(VIOL)))]
            a = np.array(arr(rng, sh, 0, 1)['a'], np.float64).reshape(sh)
            if k == 'iterations':
                a = np.floor(a * 5)
            bad = {'low': -1e-6 if k != 'iterations' else -1., 'high': 1.0001, 'nan': np.nan, 'inf': np.inf, 'just high': 1 + 2. ** (-23 if own == 'float32' else -10), 'just low': -1e-30 if own == 'float32' else -6e-5}.get(v)
            if bad is not None and a.size:
                a.reshape(-1)[int(rng.integers(0, a.size))] = bad
            if v == 'edge':
                a = np.where(rng.random(a.shape) < .5, 0., 1.)
            dt = own
            if v == 'dtype':
                dt = ['float16' if own == 'float32' else 'float32', 'int32', 'bfloat16'][int(rng.integers(0, 3))]
                a = np.ones(sh)
            if v == 'shape':
                a = np.ones(other_shape(rng, sh)) * .5
            case['v'] = {'a': a.tolist(), 'd': dt, 's': list(a.shape)}
        elif k == 'epsilon':
            case['v'] = float(rng.choice([0., 1., .5, -1e-9, 1.0001, np.nan, np.inf, .3]))
        else:
            n = str(rng.choice(list(s['acc'])))
            if rng.random() < .2:
                # an accumulator of many leaves
                m = int(rng.integers(6, 20))
                for part in ('acc', 'def', 'upd'):
                    if s[part][n] is not None:
                        s[part][n] = {'list': [s[part][n]] + [{'L': arr(rng, sh + [2], dtype=own)} for _ in range(m)]}
            t = map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d']))
            cnt = len(leaves_of(t))
            r = rng.random() * 1.1 + .18
            if r < .3:
                pass
            elif r < .38:
                n = [x for x in ('unknown', '', n[1:], n[:-1], n + '_2', n.swapcase(), f' {n}') if x not in s['acc']][int(rng.integers(0, 3))]
            elif r < .5:
                t = {'tuple' if rng.random() < .5 else 'list': [t]}
            elif r < .58:
                (kk, vv), = t.items()
                t = {'L': arr(rng, sh, dtype=own)} if kk != 'L' else {'dict': {'q': t}}
            elif r < .65 and k == 'updates':
                t = None
            elif r < .72 and cnt:
                # a leaf becomes absent
                t = self.drop(t, int(rng.integers(0, cnt)))
            elif r < .79:
                # an absent leaf and a present one change places
                none, box = {'none': 1}, 'list' if rng.random() < .5 else 'tuple'
                for part in ('acc', 'def', 'upd'):
                    if s[part][n] is not None:
                        s[part][n] = {box: [none, s[part][n]]}
                t = {box: [t, none] if rng.random() < .7 else [none, t]}
            elif cnt:
                long = [j for j, a in enumerate(leaves_of(t)) if len(set(a['s'])) > 1] or list(range(cnt))
                which, seen = long[int(rng.integers(0, len(long)))], [-1]
                what = rng.random()

                def spoil(a):
                    seen[0] += 1
                    if seen[0] != which:
                        return a
                    if what < .25:
                        return dict(a, d=['float16' if own == 'float32' else 'float32', 'int32', 'bfloat16'][int(rng.integers(0, 3))])
                    return arr(rng, other_shape(rng, a['s']), dtype=own)
                t = map_spec(t, spoil)
            if rng.random() < .3 and n in s['upd']:
                # whatever is pending under the name (written by an unchecked editor): the definition decides
                s['upd'][n] = gen_tree(rng, lambda: gen_leaf(rng, sh), 2)
            case['n'], case['v'] = n, t
        return case

    @staticmethod
    def drop(t, which):
        seen = [-1]

        def go(t):
            (k, v), = t.items()
            if k == 'L':
                seen[0] += 1
                return {'none': 1} if seen[0] == which else t
            if k in ('raw', 'none'):
                return t
            if k == 'dict':
                new = {n: go(v[n]) for n in sorted(v)}
                return {'dict': {n: new[n] for n in v}}
            return {k: [go(x) for x in v]}
        return go(t)

    def run(self, case):
        _, controller, _, _, ed, _ = repo()
        T = ed.TensorEditor
        st = make_state(case['s'])
        e = T.edit_save(st, case['mode'])
        k = case['k']
        if k in ('probabilities', 'residuals', 'iterations'):
            x, o = dec(case['v']), getattr(st, k)
            ok = x.shape == o.shape and x.dtype == o.dtype
            if ok:
                v = num(x)
                ok = bool((v >= 0).all() and ((v <= 1).all() or k == 'iterations'))
            f = lambda: getattr(e, 'set_' + k)(x)
            what = f'setting {k} (shape {o.shape}, {o.dtype}) to {x.dtype} {num(x).tolist()}'
        elif k == 'epsilon':
            ok = 0 <= case['v'] <= 1
            f = lambda: e.set_epsilon(case['v'])
            what = f'setting epsilon to {case["v"]}'
        else:
            n, t = case['n'], None if case['v'] is None else build(case['v'])
            ok = n in st.accumulators
            if ok and not (t is None and k == 'updates'):
                o = st.accumulators[n]
                lo, lt = tu.tree_leaves(o), tu.tree_leaves(t)
                ok = tu.tree_structure(o) == tu.tree_structure(t) and all(a.shape == b.shape and a.dtype == b.dtype for a, b in zip(lo, lt))
            f = lambda: getattr(e, 'set_' + k)(n, t)
            what = f'setting {k} {n!r} with leaves {[(x.shape, str(x.dtype)) for x in tu.tree_leaves(t)]} structure {tu.tree_structure(t)}'
            if n in st.accumulators:
                what += f' for {[(x.shape, str(x.dtype)) for x in tu.tree_leaves(st.accumulators[n])]} {tu.tree_structure(st.accumulators[n])}'
        if case['mode'] == 'silence' or ok:
            accepted(f, what + f' in {case["mode"]} mode')
        else:
            refused(f, Exception, what)


@prop('C18', 600, 1800)
class C18:
    def gen(self, rng, i):
        s = gen_state(rng, pending=None, n_acc=int(rng.integers(1, 4)))
        ops = []
        mode = ['standard', 'silence'][int(rng.integers(0, 2))]
        for _ in range(int(rng.integers(1, 6))):
            k = str(rng.choice(['probabilities', 'residuals', 'iterations', 'epsilon', 'accumulator', 'defaults', 'updates', 'updates_none', 'build', 'save']))
            sh = s['P']['s']
            if k in ('probabilities', 'residuals', 'iterations'):
                ops.append([k, arr(rng, sh, *([(0, 1), (0, 1), (-3, 7)][int(rng.integers(0, 3))] if mode == 'silence' else (0, 1)), dtype=s['dt'])])
            elif k == 'epsilon':
                ops.append([k, float(rng.choice([.5, .1, 0., 1., .123456789, 1e-7, float(rng.random())]))])
            elif k in ('accumulator', 'defaults', 'updates', 'updates_none'):
                n = str(rng.choice(list(s['acc'])))
                ops.append([k.split('_')[0], None if k == 'updates_none' else map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d'])), n])
            else:
                ops.append([k])
        return {'s': s, 'ops': ops, 'mode': mode, 'via': int(rng.integers(0, 2)), 'badmode': str(rng.choice(['Standard', '', 'checkify', 'none']))}

    def run(self, case):
        _, controller, _, _, ed, _ = repo()
        T = ed.TensorEditor
        st = make_state(case['s'])
        start = (lambda m: T.edit_save(st, m)) if case['via'] else (lambda m: T.edit_controller(controller.ACT_Controller(st), m))
        refused(lambda: start(case['badmode']), ValueError, f'error mode {case["badmode"]!r}')
        e = accepted(lambda: start(case['mode']), 'opening an editor')
        need(e.save() is st, 'the editor does not start from the given state')
        d = (T.edit_save(st) if case['via'] else T.edit_controller(controller.ACT_Controller(st)))
        need(d.error_mode == 'standard', f'the default error mode is {d.error_mode!r}')
        for j, op in enumerate(case['ops']):
            old, was, snap = e.state, Snap(e.state), Snapshot(e.state)
            k = op[0]
            what = f'step {j} (set {k})'
            if k == 'build':
                c = e.build()
                need(isinstance(c, controller.ACT_Controller), f'build returned a {type(c).__name__}')
                same_fields(was, c.state, what='build')
                e2 = T.edit_controller(c, case['mode'])
                same_fields(was, e2.state, what='editing the built controller')
                continue
            if k == 'save':
                same_fields(was, e.save(), what='save')
                continue
            field = {'accumulator': 'accumulators'}.get(k, k)
            if k in ('probabilities', 'residuals', 'iterations', 'epsilon'):
                val = dec(op[1]) if k != 'epsilon' else op[1]
                e2 = accepted(lambda: getattr(e, 'set_' + k)(val), what)
                need(tree_exact(getattr(e2.state, field), val), f'{what}: {field} is {getattr(e2.state, field)}, expected {val}')
            else:
                val = None if op[1] is None else build(op[1])
                e2 = accepted(lambda: getattr(e, 'set_' + k)(op[2], val), what)
                a, b = getattr(was, field), getattr(e2.state, field)
                need(sorted(a) == sorted(b), f'{what}: names of {field} became {sorted(b)}')
                for n in a:
                    exp = val if n == op[2] else a[n]
                    need(tree_exact(b[n], exp), f'{what}: {field}[{n!r}] is {b[n]}, expected {exp}')
            same_fields(was, e2.state, but=(field,), what=what)
            need(type(e2) is T and e2.error_mode == case['mode'], f'{what}: the error mode became {e2.error_mode!r}')
            snap.check(what)
            e = e2
