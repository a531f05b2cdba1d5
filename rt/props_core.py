"""Controller properties."""
from common import *

PROPS = {}


def prop(pid, quick, thorough):
    def deco(cls):
        PROPS[pid] = cls()
        PROPS[pid].n = {'quick': quick, 'thorough': thorough}
        return cls
    return deco


def pend_all(s, rng):
    s['upd'] = {n: map_spec(t, lambda a: arr(rng, a['s'], dyadic=s['dyadic'], dtype=a['d'])) for n, t in s['acc'].items()}
    return s


class OneIter:
    """A single iteration from an arbitrary state, or a legal history from a fresh one."""
    extreme = False

    def gen(self, rng, i):
        if i % 3 == 2:
            return gen_history(rng, n=int(rng.integers(2, 6)))
        s = gen_state(rng, pending=True)
        h = gen_h(rng, s)
        if self.extreme and rng.random() < .4:
            a = np.array(h['a'], np.float64).reshape(h['s'])
            a = np.where(rng.random(a.shape) < .3, float(rng.choice([np.inf, -np.inf, 1e30])), a)
            h = {'a': a.tolist(), 'd': h['d'], 's': h['s']}
        return {'s': s, 'ops': [['iter', h]]}

    def run(self, case):
        c = make_controller(case['s'])
        for j, op in enumerate(case['ops']):
            old = c.state
            was = Snap(old)
            c = step(c, case['s'], op)
            if op[0] in ('iter', 'jititer'):
                self.check(was, c, dec(op[1]), f'step {j} (iterate)')
            elif op[0] == 'reset':
                self.check_reset(was, c, f'step {j} (reset)')
            else:
                self.check_other(was, c, f'step {j} ({op[0]})')
        self.finish(case, c)

    def check_reset(self, old, c, what):
        pass

    def check_other(self, old, c, what):
        pass

    def finish(self, case, c):
        pass


class Snap:
    """A plain copy of the state before the call, so that in-place damage cannot hide a change."""
    def __init__(self, state):
        for f in FIELDS:
            v = getattr(state, f)
            setattr(self, f, dict(v) if isinstance(v, dict) else v)


@prop('C01', 600, 1800)
class C01(OneIter):
    extreme = True

    def check(self, old, c, h, what):
        P0, P1 = num(old.probabilities), num(c.probabilities)
        need(P1.shape == P0.shape, f'{what}: cumulative probabilities changed shape to {P1.shape}')
        need(not np.isnan(P1).any(), f'{what}: cumulative probability became nan: {P1}')
        need((P1 <= 1.0).all(), f'{what}: cumulative probability above one: {P1.tolist()} from P={P0.tolist()} h={num(h).tolist()}')
        need((P1 >= 0.0).all(), f'{what}: cumulative probability below zero: {P1.tolist()}')
        need((P1 >= P0 - tol(old.probabilities)['rtol'] * 5e-3).all(), f'{what}: cumulative probability decreased from {P0.tolist()} to {P1.tolist()} with h={num(h).tolist()}')


@prop('C02', 800, 2400)
class C02(OneIter):
    def check(self, old, c, h, what):
        o = lanes(old, h)
        ok = ~o['vague']
        P1, R1 = num(c.probabilities), num(c.residuals)
        info = f"P={num(old.probabilities).tolist()} h={num(h).tolist()} eps={old.epsilon} depression={old.depression_constant}"
        for nm, got, exp in (('cumulative probability', P1, o['P']), ('residual', R1, o['R'])):
            need(got.shape == exp.shape, f'{what}: {nm} has shape {got.shape}, not {exp.shape}')
            bad = ok & ~np.isclose(got, exp, **tol(old.probabilities))
            need(not bad.any(), f'{what}: {nm} is {got.tolist()}, expected {exp.tolist()} ({info})')
        halted = num(c.halted_batches).astype(bool)
        thr = 1. - float(old.epsilon)
        need((halted == o['now'])[ok & ((np.abs(P1 - thr) > 4e-6) | o['sure'])].all(),
             f"{what}: halted is {halted.tolist()}, expected {o['now'].tolist()} ({info})")
        need((P1[ok & o['now']] == 1.).all(), f'{what}: a halting entry did not end at exactly one: {P1.tolist()} ({info})')
        need(exact(c.state.epsilon, old.epsilon) and exact(c.state.depression_constant, old.depression_constant),
             f'{what}: epsilon or depression constant changed')

    def check_other(self, old, c, what):
        if 'cache' in what:
            same_fields(old, c.state, but=('updates',), what=what)


@prop('C03', 700, 2100)
class C03(OneIter):
    def gen(self, rng, i):
        case = super().gen(rng, i)
        if rng.random() < .2 and case['s']['upd'] and all(t is not None for t in case['s']['upd'].values()):
            case['s']['upd'] = {n: map_spec(t, lambda a: poke(rng, a)) for n, t in case['s']['upd'].items()}
        return case

    def check(self, old, c, h, what):
        o = lanes(old, h)
        new = c.accumulators
        need(sorted(new) == sorted(old.accumulators), f'{what}: accumulator names became {sorted(new)}')
        for n, t in old.accumulators.items():
            l0, td0 = tu.tree_flatten(t)
            l1, td1 = tu.tree_flatten(new[n])
            u = tu.tree_leaves(old.updates[n])
            need(td0 == td1, f'{what}: tree of accumulator {n!r} changed from {td0} to {td1}')
            for k, (a, b, x) in enumerate(zip(l0, l1, u)):
                need(a.shape == b.shape and a.dtype == b.dtype, f'{what}: leaf {k} of {n!r} became {b.shape} {b.dtype}, was {a.shape} {a.dtype}')
                exp = num(a) + np.where(left(o['was'], a.shape), 0., left(o['w'], a.shape) * num(x))
                exp = np.where(np.isfinite(exp) & (np.abs(exp) > float(jnp.finfo(b.dtype).max)), np.copysign(np.inf, exp), exp) if jnp.issubdtype(b.dtype, jnp.floating) else exp
                sharp = left(~o['vague'], a.shape) & (np.isfinite(num(x)) | left(o['was'] | (o['w'] > 1e-6), a.shape))   # nothing times infinity is nan
                bad = sharp & ~np.isclose(num(b), exp, equal_nan=True, **tol(b))
                need(not bad.any(), f"{what}: leaf {k} (shape {a.shape}) of {n!r} is {num(b).tolist()}, expected {exp.tolist()}; "
                     f"weights {o['w'].tolist()} acc {num(a).tolist()} update {num(x).tolist()}")


@prop('C04', 600, 1800)
class C04(OneIter):
    def gen(self, rng, i):
        s = gen_state(rng, pending=True)
        nan = rng.random() < .4
        if nan and rng.random() < .4:
            s['acc'] = {n: map_spec(t, lambda a: poke(rng, a)) for n, t in s['acc'].items()}
        ops = []
        P = np.array(s['P']['a'], np.float64).reshape(s['P']['s'])
        for _ in range(int(rng.integers(1, 4))):
            for n in list(s['acc']):
                def wild(a, n=n):
                    v = np.array(arr(rng, a['s'])['a'], np.float64).reshape(a['s'])
                    if nan:
                        m = left(P > 1 - s['eps'], v.shape)
                        v = np.where(m & (rng.random(v.shape) < .5), float(rng.choice([np.inf, np.nan, 6e4])), v)
                    return {'a': v.tolist(), 'd': a['d'], 's': a['s']}
                t = map_spec(s['acc'][n], wild)
                if ops:
                    ops.append(['cache', n, t])
                else:
                    s['upd'][n] = t
            ops.append(['iter', gen_h(rng, s)])
        return {'s': s, 'ops': ops}

    def check(self, old, c, h, what):
        thr = old.probabilities.dtype.type(1. - float(old.epsilon))
        was = np.asarray(old.probabilities) > thr
        now = np.asarray(c.halted_batches)
        need(now.shape == was.shape and now[was].all(), f'{what}: a halted entry is no longer halted: before {was.tolist()} after {now.tolist()}')
        for f in ('residuals', 'iterations'):
            a, b = num(getattr(old, f)), num(getattr(c, f))
            need(a.shape == b.shape and (a[was] == b[was]).all(), f'{what}: {f} of a halted entry changed: {a.tolist()} -> {b.tolist()}, halted {was.tolist()}')
        for n, t in old.accumulators.items():
            for k, (a, b) in enumerate(zip(tu.tree_leaves(t), tu.tree_leaves(c.accumulators[n]))):
                m = left(was, a.shape)
                need(a.shape == b.shape and np.array_equal(num(a)[m], num(b)[m], equal_nan=True),
                     f'{what}: leaf {k} of accumulator {n!r} changed at a halted entry: {num(a).tolist()} -> {num(b).tolist()}, halted {was.tolist()}')


@prop('C05', 600, 1800)
class C05(OneIter):
    def check(self, old, c, h, what):
        thr = old.probabilities.dtype.type(1. - float(old.epsilon))
        was = np.asarray(old.probabilities) > thr
        a, b = old.iterations, c.iterations
        need(a.shape == b.shape and a.dtype == b.dtype, f'{what}: the counter became {b.shape} {b.dtype}')
        exp = np.where(was, num(a), num(a) + 1)
        need((exp == num(b)).all(), f'{what}: iterations {num(b).tolist()}, expected {exp.tolist()} (halted before: {was.tolist()})')

    def check_other(self, old, c, what):
        if 'cache' in what:
            need(exact(old.iterations, c.iterations), f'{what}: iterations changed')


@prop('C06', 250, 750)
class C06(OneIter):
    def gen(self, rng, i):
        """Constant update per leaf from a zero default."""
        s = gen_state(rng, pending=False, fresh=True)
        zero = lambda a: enc(np.zeros(a['s'], a['d']))
        s['def'] = {n: map_spec(t, zero) for n, t in s['def'].items()}
        s['acc'] = {n: map_spec(t, zero) for n, t in s['acc'].items()}
        const = {n: map_spec(t, lambda a: arr(rng, a['s'], .5, 2., dyadic=s['dyadic'], dtype=a['d'])) for n, t in s['acc'].items()}
        ops = []
        for _ in range(int(rng.integers(2, 8))):
            if ops and rng.random() < .25:
                ops.append(['reset'])
                continue
            ops += [['cache', n, const[n]] for n in s['acc']]
            ops.append(['iter', gen_h(rng, dict(s, P=enc(np.zeros(s['P']['s'])))) if rng.random() < .4 else arr(rng, s['P']['s'], -.1, .7, dtype=s['dt'])])
        return {'s': s, 'ops': ops, 'const': const}

    def run(self, case):
        self.const = {n: tu.tree_leaves(build(t)) for n, t in case['const'].items()}
        super().run(case)

    def account(self, c, what):
        P = num(c.probabilities)
        for n, us in self.const.items():
            for k, (u, a) in enumerate(zip(us, tu.tree_leaves(c.accumulators[n]))):
                exp = left(P, u.shape) * num(u)
                need(np.allclose(num(a), exp, **{k: 5 * x for k, x in tol(a).items()}),
                     f'{what}: gathered constant update of leaf {k} of {n!r} is {num(a).tolist()}, expected cumulative probability times update {exp.tolist()}')
        h = np.asarray(c.halted_batches)
        need((P[h] == 1.).all(), f'{what}: a halted entry holds cumulative probability {P.tolist()} instead of one')

    def check(self, old, c, h, what):
        self.account(c, what)

    def check_reset(self, old, c, what):
        P0 = num(old.probabilities)
        was = np.asarray(old.probabilities) > old.probabilities.dtype.type(1. - float(old.epsilon))
        need((num(c.probabilities)[was] == 0).all() and (num(c.probabilities)[~was] == P0[~was]).all(),
             f'{what}: cumulative probabilities after reset {num(c.probabilities).tolist()} from {P0.tolist()}')
        self.account(c, what)


def refused(f, kinds, what):
    try:
        f()
    except kinds:
        return
    except Fail:
        raise
    except Exception as e:
        raise Fail(f'{what}: raised {type(e).__name__} ({str(e).strip()[:120]}) instead of one of {[k.__name__ for k in (kinds if isinstance(kinds, tuple) else (kinds,))]}')
    raise Fail(f'{what}: was accepted')


def accepted(f, what):
    try:
        return f()
    except Exception as e:
        raise Fail(f'{what}: raised {type(e).__name__}: {str(e).strip()[:200]}')


@prop('C07', 600, 1800)
class C07:
    """Random call sequences; the pending set is tracked by the oracle."""
    def gen(self, rng, i):
        s = gen_state(rng, pending=None, n_acc=int(rng.integers(1, 4)))
        ops = []
        names = list(s['acc'])
        for _ in range(int(rng.integers(2, 8))):
            r = rng.random()
            if r < .5:
                n = str(rng.choice(names))
                ops.append(['cache', n, map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d']))])
            elif r < .57:
                ops.append(['cache', str(rng.choice([x for x in NAMES + ['', 'updates', 'stat'] if x not in names])), {'L': arr(rng, [2])}])
            elif r < .77:
                ops.append(['iter', gen_h(rng, s)])
            elif r < .83:
                sh = [list(x) for x in ([s['P']['s'] + [1], [1] + s['P']['s'], s['P']['s'][:-1], [5]])]
                sh = [x for x in sh if x != s['P']['s']]
                ops.append(['iter', arr(rng, sh[int(rng.integers(0, len(sh)))], 0, 1)])
            elif r < .9:
                ops.append(['reset'])
            elif r < .96:
                n = str(rng.choice(names))
                cnt = len(leaves_of(s['acc'][n]))
                if cnt:
                    which = int(rng.integers(0, cnt))
                    seen = [-1]

                    def spoil(a):
                        seen[0] += 1
                        if seen[0] != which:
                            return arr(rng, a['s'], dtype=a['d'])
                        return arr(rng, other_shape(rng, a['s']), dtype=a['d'])
                    ops.append(['cache', n, map_spec(s['acc'][n], spoil)])
            else:
                n = str(rng.choice(names))
                t = map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d']))
                ops.append(['cache', n, {'list': [t, {'L': arr(rng, s['P']['s'])}]}])
            if rng.random() < .3:
                for n in names:
                    ops.append(['cache', n, map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d']))])
        return {'s': s, 'ops': ops}

    def run(self, case):
        s = case['s']
        c = make_controller(s)
        for j, op in enumerate(case['ops']):
            old, was = c.state, Snap(c.state)
            pend = {n for n, t in was.updates.items() if t is not None}
            what = f'step {j} ({op[0]}{" " + repr(op[1]) if op[0] == "cache" else ""}) with pending {sorted(pend)} of {sorted(was.updates)}'
            if op[0] == 'cache':
                item = build(op[2])
                if op[1] not in was.updates:
                    refused(lambda: c.cache_update(op[1], item), ValueError, what + ' for an unknown accumulator')
                    continue
                if op[1] in pend:
                    refused(lambda: c.cache_update(op[1], item), RuntimeError, what + ' for a pending accumulator')
                    continue
                c = accepted(lambda: c.cache_update(op[1], item), what)
                new = c.state
                same_fields(was, new, but=('updates',), what=what)
                need(sorted(new.updates) == sorted(was.updates), f'{what}: names became {sorted(new.updates)}')
                for n in was.updates:
                    exp = item if n == op[1] else was.updates[n]
                    need(tree_exact(new.updates[n], exp), f'{what}: pending update of {n!r} is {new.updates[n]}, expected {exp}')
            elif op[0] == 'iter':
                h = dec(op[1])
                if h.shape != was.probabilities.shape:
                    refused(lambda: c.iterate_act(h), ValueError, what + f' with halting shape {h.shape} for batch shape {was.probabilities.shape}')
                    continue
                bad = [n for n in was.accumulators if not self.fits(was.accumulators[n], was.updates[n])]
                if bad:
                    refused(lambda: c.iterate_act(h), RuntimeError, what + f' with missing or misfit updates {bad}')
                    continue
                c = accepted(lambda: c.iterate_act(h), what)
                need(sorted(c.state.updates) == sorted(was.updates), f'{what}: names of updates became {sorted(c.state.updates)}')
                left_over = [n for n, t in c.state.updates.items() if t is not None]
                need(not left_over, f'{what}: updates {left_over} are still pending after the iteration')
            else:
                if pend:
                    refused(c.reset_batches, RuntimeError, what)
                    continue
                c = accepted(c.reset_batches, what)
                need(sorted(c.state.updates) == sorted(was.updates) and all(t is None for t in c.state.updates.values()), f'{what}: updates became {c.state.updates}')
            need(not (set(c.state.accumulators) ^ set(was.accumulators)), f'{what}: accumulator names changed')

    @staticmethod
    def fits(a, u):
        if u is None:
            return False
        la, lu = tu.tree_leaves(a), tu.tree_leaves(u)
        return len(la) == len(lu) and all(x.shape == y.shape for x, y in zip(la, lu))


def poke(rng, a):
    v = np.array(a['a'], np.float64).reshape(a['s'])
    v = np.where(rng.random(v.shape) < .4, rng.choice([np.inf, -np.inf, np.nan, 6e4, 0.], v.shape), v)
    return {'a': v.tolist(), 'd': a['d'], 's': a['s']}


@prop('C08', 600, 1800)
class C08(OneIter):
    def gen(self, rng, i):
        if i % 3 == 2:
            h = gen_history(rng, n=int(rng.integers(3, 6)))
            h['ops'].append(['reset'])
            return h
        s = gen_state(rng, pending=False)
        if i % 3 == 1:          # values that arithmetic cannot undo, in the accumulators (halted entries and others)
            odd = lambda a: poke(rng, a)
            s['acc'] = {n: map_spec(t, odd) for n, t in s['acc'].items()}
            if rng.random() < .3:
                s['def'] = {n: map_spec(t, odd) for n, t in s['def'].items()}
        if rng.random() < .3:      # accumulators of another type than the core, contents near to their defaults
            near = lambda a: enc(np.trunc(np.array(a['a'], np.float32).reshape(a['s'])).astype(a['d']))
            for n in s['acc']:
                if rng.random() < .5 and not s['share']:
                    s['def'][n] = map_spec(s['acc'][n], near)
                if rng.random() < .6 and s['dt'] == 'float32':
                    for part in ('acc', 'def'):
                        s[part][n] = map_spec(s[part][n], lambda a: dict(a, d='bfloat16'))
        return {'s': s, 'ops': [['reset']]}

    def check(self, old, c, h, what):
        pass

    def check_reset(self, old, c, what):
        was = np.asarray(old.probabilities) > old.probabilities.dtype.type(1. - float(old.epsilon))
        for f in ('probabilities', 'residuals', 'iterations'):
            a, b = getattr(old, f), getattr(c.state, f)
            need(a.shape == b.shape and a.dtype == b.dtype, f'{what}: {f} became {b.shape} {b.dtype}')
            exp = np.where(was, 0., num(a))
            need(np.array_equal(num(b), exp, equal_nan=True), f'{what}: {f} is {num(b).tolist()}, expected {exp.tolist()} (halted {was.tolist()})')
        new = c.state
        need(sorted(new.accumulators) == sorted(old.accumulators), f'{what}: accumulator names became {sorted(new.accumulators)}')
        for n, t in old.accumulators.items():
            need(tu.tree_structure(t) == tu.tree_structure(new.accumulators[n]), f'{what}: tree of {n!r} changed')
            for k, (a, d, b) in enumerate(zip(*map(tu.tree_leaves, (t, old.defaults[n], new.accumulators[n])))):
                need(a.shape == b.shape and a.dtype == b.dtype, f'{what}: leaf {k} of {n!r} became {b.shape} {b.dtype}')
                exp = np.where(left(was, a.shape), num(d), num(a))
                need(np.array_equal(num(b), exp, equal_nan=True), f'{what}: leaf {k} of {n!r} is {num(b).tolist()}, expected {exp.tolist()} (halted {was.tolist()})')
        same_fields(old, new, but=('probabilities', 'residuals', 'iterations', 'accumulators'), what=what)


@prop('C25', 1000, 3000)
class C25:
    def gen(self, rng, i):
        s = gen_state(rng, pending=None, n_acc=int(rng.integers(0, 4)), batch=BATCHES[i % len(BATCHES)])
        if rng.random() < .25:
            s['P'] = enc(np.full(s['P']['s'], float(rng.choice([0., 1.])), np.float32))
        if rng.random() < .2:
            s['upd'] = {n: None for n in s['upd']}
        elif rng.random() < .25:
            pend_all(s, rng)
        return {'s': s}

    def run(self, case):
        s = case['s']
        state = make_state(s)
        _, controller, builder, viewer, ed, _ = repo()
        c = controller.ACT_Controller(state)
        v = c.make_viewer()
        P = num(state.probabilities)
        thr = 1. - s['eps']
        exp = P > thr
        ok = (np.abs(P - thr) > 4e-6) | bool(s['dyadic'])
        for nm, o in (('controller', c), ('viewer', v)):
            got = np.asarray(o.halted_batches)
            need(got.dtype == bool and got.shape == exp.shape, f'{nm}.halted_batches is {got.dtype} {got.shape}')
            need((got == exp)[ok].all(), f'{nm}.halted_batches is {got.tolist()} for probabilities {P.tolist()} and epsilon {s["eps"]}')
            need(abs(float(o.halt_threshold) - thr) < 1e-6, f'{nm}.halt_threshold is {o.halt_threshold} for epsilon {s["eps"]}')
            for f in ('probabilities', 'residuals', 'iterations', 'accumulators'):
                need(tree_exact(getattr(o, f), getattr(state, f)), f'{nm}.{f} is not the state field')
            need(o.save() is state, f'{nm}.save() is not the state')
        got = np.asarray(c.halted_batches)
        need(bool(c.is_completely_halted) == bool(got.all()), f'is_completely_halted is {c.is_completely_halted} for {got.tolist()}')
        need(bool(c.is_any_halted) == bool(got.any()), f'is_any_halted is {c.is_any_halted} for {got.tolist()}')
        need(float(c.depression_constant) == s['dep'], f'depression_constant is {c.depression_constant}')
        pend = [t is not None for t in s['upd'].values()]
        what = {n: t is not None for n, t in s['upd'].items()}
        need(bool(c.updates_ready_to_commit) == all(pend), f'updates_ready_to_commit is {c.updates_ready_to_commit} for pending {what}')
        need(bool(c.has_cached_updates) == any(pend), f'has_cached_updates is {c.has_cached_updates} for pending {what}')
        for n in s['acc']:
            need(tree_exact(c[n], state.accumulators[n]), f'controller[{n!r}] is not the accumulator')
        for f in ('defaults', 'updates'):
            need(tree_exact(getattr(v, f), getattr(state, f)), f'viewer.{f} is not the state field')
        need(tree_exact(viewer.ACTViewer.load(state).save(), state) and tree_exact(controller.ACT_Controller.load(state).save(), state), 'load and save disagree')
        for nm, o in (('builder', builder.ControllerBuilder(state)), ('editor', ed.TensorEditor.edit_save(state))):
            for f in ('probabilities', 'residuals', 'iterations', 'accumulators', 'defaults', 'updates', 'epsilon'):
                need(tree_exact(getattr(o, f), getattr(state, f)), f'{nm}.{f} is not the state field')


@prop('C27', 60, 250)
class C27:
    OPS = ['iter', 'reset', 'cache', 'halted_only', 'unhalted_only', 'mask', 'transform', 'define', 'shape', 'delete',
           'edit', 'status', 'replace', 'full']

    def gen(self, rng, i):
        op = self.OPS[i % len(self.OPS)]
        pend = {'iter': True, 'reset': False}.get(op)
        s = gen_state(rng, pending=pend, batch=[[3], [2, 3]][int(rng.integers(0, 2))], depth=1, half=False)
        s['mode'] = None
        n = list(s['acc'])[0]
        if op == 'cache':
            s['upd'][n] = None
        if op == 'full':
            h = gen_history(rng, n=3, batch=[3], n_acc=1, half=False)
            h['s']['mode'] = None
            return dict(h, op=op)
        return {'s': s, 'op': op, 'h': gen_h(rng, s), 'n': n,
                't': map_spec(s['acc'][n], lambda a: arr(rng, a['s'], dtype=a['d'])),
                'm': {'a': (rng.random(s['P']['s']) < .5).tolist(), 'd': 'bool', 's': s['P']['s']}}

    def run(self, case):
        _, controller, builder, viewer, ed, _ = repo()
        st = make_state(case['s'])
        op = case['op']
        T = ed.TensorEditor
        if op == 'full':
            def f(c, args):
                for o, a in zip(case['ops'], args):
                    c = c.cache_update(o[1], a) if o[0] == 'cache' else c.iterate_act(a) if o[0] == 'iter' else c.reset_batches()
                return c.save()
            args = (controller.ACT_Controller(st), [build(o[2]) if o[0] == 'cache' else dec(o[1]) if o[0] == 'iter' else 0. for o in case['ops']])
        else:
            h, t, m, n = dec(case['h']), build(case['t']), dec(case['m']), case['n']
            c, v, b = controller.ACT_Controller(st), viewer.ACTViewer(st), builder.ControllerBuilder(st)
            shapes = [int(x) for x in h.shape] + [2]
            F = {'iter': (lambda c, h: c.iterate_act(h).save(), (c, h)),
                 'reset': (lambda c: c.reset_batches().save(), (c,)),
                 'cache': (lambda c, t: c.cache_update(n, t).save(), (c, t)),
                 'halted_only': (lambda v: v.halted_only().save(), (v,)),
                 'unhalted_only': (lambda c: c.make_viewer().unhalted_only().save(), (c,)),
                 'mask': (lambda v, m: v.mask_data(m).save(), (v, m)),
                 'transform': (lambda v: v.transform(lambda x: x * 2 + 1).save(), (v,)),
                 'define': (lambda b, t: b.define_accumulator_directly('new', t).build().save(), (b, t)),
                 'shape': (lambda b: b.define_accumulator_by_shape('new', {'q': shapes}, fill=.5).build().save(), (b,)),
                 'delete': (lambda b: b.delete_definition(n).build().save() if hasattr(b, 'delete_definition') else b._delete_definition(n).build().save(), (b,)),
                 'edit': (lambda c, h, t: T.edit_controller(c, 'silence').set_probabilities(h).set_residuals(h * 2).set_iterations(h + 1)
                          .set_accumulator(n, t).set_defaults(n, t).set_updates(n, t).set_epsilon(c.state.epsilon * .5).save(), (c, h, t)),
                 'status': (lambda c: (c.halted_batches, c.is_completely_halted, c.is_any_halted, c.halt_threshold, c.probabilities), (c,)),
                 'replace': (lambda s, h: s.replace(probabilities=h), (st, h))}
            f, args = F[op]
        eager = accepted(lambda: f(*args), f'{op} (eager)')
        comp = accepted(lambda: jax.jit(f)(*args), f'{op} under jit')
        le, te = tu.tree_flatten(eager)
        lc, tc = tu.tree_flatten(comp)
        need(te == tc, f'{op}: structure differs under jit: {tc} instead of {te}')
        for k, (a, b) in enumerate(zip(le, lc)):
            need(np.allclose(num(a), num(b), rtol=1e-5, atol=1e-6, equal_nan=True), f'{op}: leaf {k} is {num(b).tolist()} under jit and {num(a).tolist()} eagerly')
