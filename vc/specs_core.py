"""Contracts of the controller and of the viewer."""
import z3
import values as V, fakes
from core import PathEnd
from registry import spec
from world import *

CTRL = 'src/jax_act/core/controller.py:ACT_Controller.'
VIEW = 'src/jax_act/core/viewer.py:ACTViewer.'
UT = 'src/jax_act/core/utils.py:'


def controller(w):
    from src.jax_act.core.controller import ACT_Controller
    return ACT_Controller(w.state())


FIELDS = ('epsilon', 'iterations', 'residuals', 'probabilities', 'defaults', 'accumulators', 'updates', 'depression_constant', 'error_mode')


class Guard:
    """Records the receiver of a call, its state and its containers; afterwards none may have changed."""
    def __init__(self, c, obj, label):
        self.c, self.obj, self.label = c, obj, label
        self.state = obj.state
        self.vals = {f: getattr(obj.state, f) for f in FIELDS}
        self.attrs = dict(vars(obj))
        for d in (self.vals['defaults'], self.vals['accumulators'], self.vals['updates']):
            d.frozen = True
        self.events = len(c.events)

    def check(self, out):
        c = self.c
        mut = [e for e in c.events[self.events:] if e[0] == 'mutation']
        c.holds(f'C11 {self.label}: the containers of the receiver are not written', not mut, str(mut))
        same = self.obj.state is self.state and all(getattr(self.state, f) is v for f, v in self.vals.items()) and \
            all(vars(self.obj).get(k) is v for k, v in self.attrs.items())
        c.holds(f'C11 {self.label}: the receiver keeps its state', same, 'a field of the receiver was replaced')
        if out.ok and out.value is not None and type(out.value) is type(self.obj):
            c.holds(f'C11 {self.label}: the result is a new object', out.value is not self.obj, 'the receiver itself is returned')
            new = getattr(out.value, 'state', None)
            # containers of the result may be shared (nothing writes them) but must not be the state object rewritten
            c.holds(f'C11 {self.label}: the result has a state of its own or the unchanged one', new is not None, '')
        trace_safe(c, self.label)


def trace_safe(c, label):
    bad = [e for e in c.events if e[0] == 'content-branch']
    c.holds(f'C27 {label}: no python branch on tensor contents', not bad, str(bad))


def same_state_but(c, tag, old, new, fields):
    """Fields of two states that must be the very same or equal values."""
    for f in fields:
        a, b = getattr(old, f), getattr(new, f)
        if a is b:
            c.holds(f'{tag}: {f} kept', True)
        elif isinstance(a, SymTensor) and isinstance(b, SymTensor):
            equal_tensor(c, f'{tag}: {f} kept', a, b)
        else:
            c.holds(f'{tag}: {f} kept', False, f'{f} replaced')


def entry_kept(c, tag, old, new, n):
    """The entry of a dict at name n is as before."""
    if not hasattr(new, 'has'):
        c.holds(f'{tag}: defined as before', False, f'{type(new).__name__} instead of a dictionary')
        return
    ho, hn = old.has(SymName(n)), new.has(SymName(n))
    c.prove(f'{tag}: defined as before', ho == hn)
    if not c.branch(ho):
        return
    if not c.provable(hn):
        return
    a, b = old.lookup(SymName(n)), new.lookup(SymName(n))
    same_tree(c, f'{tag}: content kept', a, b)


def same_tree(c, name, a, b, k=None):
    """Trees of equal structure whose leaves at the arbitrary position are equal."""
    if a is b:
        c.holds(name, True)
        return
    if not isinstance(a, SymTree) or not isinstance(b, SymTree):
        if isinstance(a, SymTensor) and isinstance(b, SymTensor):
            equal_tensor(c, name, a, b)
            return
        c.holds(name, False, f'{type(b).__name__} instead of {type(a).__name__}')
        return
    c.prove(name, a.td == b.td)
    k = c.focus_leaf[0] if k is None else k
    if c.branch(z3.And(k >= 0, k < a.n)) and c.provable(k < b.n):
        equal_tensor(c, name, a.leaf(k), b.leaf(k))


# --------------------------------------------------------------------------- iterate_act
def weights(w, H):
    """The specification of one entry of one iteration, from the property text."""
    P = w.P.elem(w.b())
    hc = z3.If(H < 0, 0, z3.If(H > 1, 1, H))
    hd = w.dep * hc
    thr = 1 - w.eps
    will, halted = hd + P > thr, P > thr
    return P, hd, thr, will, halted, z3.If(will, 1 - P, hd)


@spec('iterate_act', 'C01 C02 C03 C04 C05 C07 C11 C25 C27',
      f'{CTRL}iterate_act {CTRL}_process_probabilities {CTRL}_update_accumulator {CTRL}halt_threshold {CTRL}halted_batches {UT}merge_pytrees '
      f'{UT}setup_left_broadcast src/jax_act/core/states.py:ACTStates.replace', covers=['accepted'])
def iterate(c):
    w = World(c, pending='all')
    w.assume_focus()
    hp = tensor('h', w.B, w.D)
    a, u = w.accs_at(w.accs), w.accs_at(w.upds)
    ct = controller(w)
    g = Guard(c, ct, 'iterate_act')
    out = attempt(lambda: ct.iterate_act(hp))
    g.check(out)
    c.holds('C07 iterate_act: accepted when every update is pending and matches', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    P, hd, thr, will, halted, wt = weights(w, hp.elem(b))
    R, I = w.R.elem(b), w.I.elem(b)
    for f in ('probabilities', 'residuals', 'iterations'):
        c.prove(f'C03 iterate_act: {f} keep batch shape', same_shape(getattr(s, f).sshape, w.B))
    P2, R2, I2 = (V.num(getattr(s, f).elem(b)) for f in ('probabilities', 'residuals', 'iterations'))
    c.prove('C01 iterate_act: probabilities at least zero', P2 >= 0)
    c.prove('C01 iterate_act: probabilities at most one', P2 <= 1)
    c.prove('C01 iterate_act: probabilities never decrease', P2 >= P)
    h2 = out.value.halted_batches.elem(b)
    c.prove('C02 iterate_act: halts exactly above the threshold', h2 == will)
    c.prove('C02 iterate_act: cumulative probability', P2 == z3.If(will, 1, P + hd))
    c.prove('C02 iterate_act: residual', R2 == z3.If(z3.And(will, z3.Not(halted)), 1 - P, R))
    c.prove('C05 iterate_act: counter', I2 == z3.If(halted, I, I + 1))
    c.prove('C04 iterate_act: residual of a halted entry', z3.Implies(halted, R2 == R))
    c.prove('C04 iterate_act: count of a halted entry', z3.Implies(halted, I2 == I))
    c.prove('C04 iterate_act: stays halted', z3.Implies(halted, h2))
    at = s.accumulators.lookup(SymName(w.n))
    if not isinstance(at, SymTree):
        c.fail('C03 iterate_act: structure of the accumulator', f'{type(at).__name__} instead of a tree')
        return
    c.prove('C03 iterate_act: structure of the accumulator', at.td == w.td(w.n))
    a2 = at.leaf(w.k)
    ok = same_shape(a2.sshape, a.sshape)
    c.prove('C03 iterate_act: shape of a leaf', ok)
    c.prove('C03 iterate_act: dtype of a leaf', a2.dtype.z == a.dtype.z)
    if not c.provable(ok):
        return
    ix = focus_index(a.sshape)
    x, y, z = a.elem(ix), V.num(a2.elem(ix)), u.elem(ix)
    c.prove('C03 iterate_act: leaf gains weight times update', y == z3.If(halted, x, x + wt * z))
    c.prove('C04 iterate_act: accumulator of a halted entry', z3.Implies(halted, y == x))
    c.prove('C07 iterate_act: same names', s.accumulators.has(SymName(w.n)))
    up = s.updates.lookup(SymName(w.n))
    c.holds('C07 iterate_act: nothing stays pending', up is None, f'{up!r} pending')
    same_state_but(c, 'C18 iterate_act' if False else 'C03 iterate_act', w_state(g), s, ('epsilon', 'depression_constant', 'defaults', 'error_mode'))


def w_state(g):
    return g.state


@spec('iterate_act without leaves', 'C01 C02 C05 C07 C11 C27', f'{CTRL}iterate_act {CTRL}_process_probabilities', covers=['accepted'])
def iterate_bare(c):
    w = World(c, pending='all')
    w.assume_bare(c.choose(2))
    hp = tensor('h', w.B, w.D)
    ct = controller(w)
    g = Guard(c, ct, 'iterate_act')
    out = attempt(lambda: ct.iterate_act(hp))
    g.check(out)
    c.holds('C07 iterate_act: accepted when every update is pending and matches', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    P, hd, thr, will, halted, wt = weights(w, hp.elem(b))
    R, I = w.R.elem(b), w.I.elem(b)
    P2, R2, I2 = (V.num(getattr(s, f).elem(b)) for f in ('probabilities', 'residuals', 'iterations'))
    c.prove('C01 iterate_act without leaves: probabilities in [0,1], never decreasing', z3.And(P2 >= P, P2 <= 1))
    c.prove('C02 iterate_act without leaves: cumulative probability', P2 == z3.If(will, 1, P + hd))
    c.prove('C02 iterate_act without leaves: residual', R2 == z3.If(z3.And(will, z3.Not(halted)), 1 - P, R))
    c.prove('C05 iterate_act without leaves: counter', I2 == z3.If(halted, I, I + 1))
    same_names(c, 'C07 iterate_act without leaves', w, s)
    if c.branch(w.has(w.n)):
        c.holds('C07 iterate_act without leaves: nothing stays pending', s.updates.lookup(SymName(w.n)) is None, 'pending')
    same_state_but(c, 'C07 iterate_act without leaves', g.state, s, ('epsilon', 'depression_constant', 'defaults', 'error_mode'))


def same_names(c, tag, w, s):
    for f in ('accumulators', 'defaults', 'updates'):
        c.prove(f'{tag}: names of {f}', getattr(s, f).has(SymName(w.n)) == w.has(w.n))


@spec('reset_batches without leaves', 'C07 C08 C11 C27', f'{CTRL}reset_batches', covers=['accepted'])
def reset_bare(c):
    w = World(c, pending='none')
    w.assume_bare(c.choose(2))
    ct = controller(w)
    g = Guard(c, ct, 'reset_batches')
    out = attempt(lambda: ct.reset_batches())
    g.check(out)
    c.holds('C07 reset_batches: accepted when nothing is pending', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    halted = w.P.elem(b) > 1 - w.eps
    for f, t in (('probabilities', w.P), ('residuals', w.R), ('iterations', w.I)):
        t2 = getattr(s, f)
        c.prove(f'C08 reset_batches without leaves: {f} keep shape and dtype', z3.And(same_shape(t2.sshape, t.sshape), t2.dtype.z == t.dtype.z))
        c.prove(f'C08 reset_batches without leaves: {f}', V.num(t2.elem(b)) == z3.If(halted, 0, t.elem(b)))
    same_names(c, 'C08 reset_batches without leaves', w, s)
    same_state_but(c, 'C08 reset_batches without leaves', g.state, s, ('epsilon', 'depression_constant', 'error_mode'))


@spec('views without leaves', 'C09 C10 C11 C27', f'{VIEW}mask_data {VIEW}transform {VIEW}halted_only {VIEW}unhalted_only', covers=['masked', 'halted', 'unhalted', 'transformed'])
def view_bare(c):
    w = World(c, pending='any', updates='match')
    leafless = c.choose(2)
    w.assume_bare(leafless)
    m = tensor('mask', w.B, V.BOOL, sort=z3.BoolSort())
    v = viewer(w)
    g = Guard(c, v, 'views')
    images = []

    def function(t):
        r = tensor(c.name('image'), t.sshape, t.dtype)
        images.append((t, r))
        return r
    kind = c.choose(4)
    out = attempt((lambda: v.mask_data(m), lambda: v.halted_only(), lambda: v.unhalted_only(), lambda: v.transform(function))[kind])
    g.check(out)
    tag = ('C09 mask_data', 'C09 halted_only', 'C09 unhalted_only', 'C10 transform')[kind] + ' without leaves'
    c.holds(f'{tag}: accepted', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover(('masked', 'halted', 'unhalted', 'transformed')[kind])
    s = out.value.state
    b = w.b()
    halted = w.P.elem(b) > 1 - w.eps
    keep = (m.elem(b), halted, z3.Not(halted), None)[kind]
    for f, t in (('probabilities', w.P), ('residuals', w.R), ('iterations', w.I)):
        got = getattr(s, f)
        if kind == 3:
            c.holds(f'{tag}: {f} is the image of its own source', [a for a, r in images if r is got] == [t], 'of something else')
        else:
            c.prove(f'{tag}: {f}', z3.And(same_shape(got.sshape, t.sshape), V.num(got.elem(b)) == z3.If(keep, t.elem(b), 0)))
    same_names(c, tag, w, s)
    same_state_but(c, tag, g.state, s, ('epsilon', 'depression_constant', 'error_mode'))


@spec('iterate_act on any arguments', 'C07', f'{CTRL}iterate_act {CTRL}_update_accumulator {UT}merge_pytrees', covers=['accepted', 'refused'])
def iterate_any(c):
    w = World(c, pending='any', updates='any', same_dtype=False)
    hp = w.any_leaf('h')
    ct = controller(w)
    out = attempt(lambda: ct.iterate_act(hp))
    if not out.ok:
        c.cover('refused')
        return
    c.cover('accepted')
    c.prove('C07 iterate_act: accepts only the batch shape', same_shape(hp.sshape, w.B))
    if not c.branch(w.has(w.n)):
        return
    u = w.upds.lookup(SymName(w.n))
    c.holds('C07 iterate_act: accepts only if every update is pending', u is not None, 'no update pending for an accumulator')
    if u is None:
        return
    c.prove('C07 iterate_act: accepts only matching leaf counts', u.n == F_nleaves(w.td(w.n)))
    if c.branch(z3.And(w.k >= 0, w.k < F_nleaves(w.td(w.n)), w.k < u.n)):
        c.prove('C07 iterate_act: accepts only matching leaf shapes', same_shape(u.leaf(w.k).sshape, w.accs_at(w.accs).sshape))


@spec('iterate_act in IEEE arithmetic', 'C01 C04', f'{CTRL}iterate_act {CTRL}_process_probabilities {CTRL}_update_accumulator', mode='fp', covers=['accepted'], timeout=120000, tier='thorough')
def iterate_fp(c):
    w = World(c, pending='all')
    w.assume_focus()
    hp = tensor('h', w.B, w.D, fact=lambda v: z3.Not(z3.fpIsNaN(v)))
    c.assume(z3.Not(z3.fpIsInf(w.dep)))
    out = attempt(lambda: controller(w).iterate_act(hp))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    P, P2 = w.P.elem(b), s.probabilities.elem(b)
    one = Num.const(1)
    halted = w_halted_fp(w)
    c.prove('C01 iterate_act, float32: at most one', z3.fpLEQ(P2, one))
    c.prove('C01 iterate_act, float32: never decrease', z3.fpGEQ(P2, P))
    c.prove('C04 iterate_act, float32: stays halted', z3.Implies(halted, out.value.halted_batches.elem(b)))


@spec('a halted entry in IEEE arithmetic (inf, nan)', 'C04', f'{CTRL}iterate_act {CTRL}_process_probabilities {CTRL}_update_accumulator', mode='fp', covers=['accepted'])
def frozen_fp(c):
    '''No arithmetic on a halted entry: whatever the update, the halting probability or the accumulator hold, the entry comes out bit by bit.'''
    w = World(c, pending='all')
    w.assume_focus()
    hp = tensor('h', w.B, w.D)
    out = attempt(lambda: controller(w).iterate_act(hp))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    halted = w_halted_fp(w)
    c.prove('C04 iterate_act, float32: residual of a halted entry', z3.Implies(halted, same_float(V.num(s.residuals.elem(b)), w.R.elem(b))))
    c.prove('C04 iterate_act, float32: count of a halted entry', z3.Implies(halted, same_float(V.num(s.iterations.elem(b)), w.I.elem(b))))
    a = w.accs_at(w.accs)
    at = s.accumulators.lookup(SymName(w.n))
    if not isinstance(at, SymTree):
        return
    a2 = at.leaf(w.k)
    if c.provable(same_shape(a2.sshape, a.sshape)):
        ix = focus_index(a.sshape)
        c.prove('C04 iterate_act, float32: accumulator of a halted entry', z3.Implies(halted, same_float(V.num(a2.elem(ix)), a.elem(ix))))


@spec('an update that is not finite in IEEE arithmetic', 'C03', f'{CTRL}iterate_act {CTRL}_process_probabilities {CTRL}_update_accumulator', mode='fp', covers=['accepted'])
def infinite_fp(c):
    '''In the first step of a controller (epsilon one half), where probability is consumed, an infinite update makes the accumulator infinite, and one that is no number makes it none.'''
    w = World(c, pending='all')
    w.assume_focus()
    hp = tensor('h', w.B, w.D, fact=lambda v: z3.Not(z3.fpIsNaN(v)))
    for x, y in ((w.dep, 1), (w.P.elem(w.b()), 0), (w.eps, .5)):       # the general case is beyond the solver
        c.assume(x == Num.const(y))
    a, u = w.accs_at(w.accs), w.accs_at(w.upds)
    out = attempt(lambda: controller(w).iterate_act(hp))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    more = z3.fpGT(V.num(s.probabilities.elem(b)), w.P.elem(b))
    at = s.accumulators.lookup(SymName(w.n))
    if not isinstance(at, SymTree):
        return
    a2 = at.leaf(w.k)
    if c.provable(same_shape(a2.sshape, a.sshape)):
        ix = focus_index(a.sshape)
        x, v, y = a.elem(ix), u.elem(ix), V.num(a2.elem(ix))
        finite = z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
        c.prove('C03 iterate_act, float32: an infinite update arrives', z3.Implies(z3.And(more, finite, z3.fpIsInf(v)), y == v))
        c.prove('C03 iterate_act, float32: an update that is no number arrives', z3.Implies(z3.And(more, finite, z3.fpIsNaN(v)), z3.fpIsNaN(y)))


def same_float(x, y):
    '''Equal numbers, or both not a number (a zero may change its sign).'''
    return z3.Or(x == y, z3.fpEQ(x, y))


def w_halted_fp(w):
    return z3.fpGT(w.P.elem(w.b()), z3.fpSub(Num.RM, Num.const(1), w.eps))


# --------------------------------------------------------------------------- C06: history invariant
@spec('account of the weights: iteration', 'C06', f'{CTRL}iterate_act {CTRL}_process_probabilities {CTRL}_update_accumulator', covers=['accepted'])
def account_step(c):
    """Ghost invariant: accumulator == cumulative probability * u, and the probability is below the threshold or one."""
    w = World(c, pending='all')
    w.assume_focus()
    hp = tensor('h', w.B, w.D)
    b = w.b()
    P = w.P.elem(b)
    a, u = w.accs_at(w.accs), w.accs_at(w.upds)
    ix = focus_index(a.sshape)
    inv = lambda p: z3.Or(p == 1, p <= 1 - w.eps)
    c.assume(inv(P))
    ue, d0 = u.elem(ix), w.accs_at(w.defs).elem(ix)
    c.assume(a.elem(ix) == d0 + P * ue)
    out = attempt(lambda: controller(w).iterate_act(hp))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    P2 = V.num(s.probabilities.elem(b))
    a2 = s.accumulators.lookup(SymName(w.n)).leaf(w.k)
    d2 = s.defaults.lookup(SymName(w.n)).leaf(w.k)
    c.prove('C06 iterate_act: below the threshold or exactly one', inv(P2))
    if c.provable(same_shape(a2.sshape, a.sshape)):
        c.prove('C06 iterate_act: weights gathered equal the probability gained', V.num(a2.elem(ix)) == d0 + P2 * ue)
        c.prove('C06 iterate_act: defaults kept', d2.elem(ix) == d0)
    else:
        c.fail('C06 iterate_act: weights gathered equal the probability gained', 'shape changed')


@spec('account of the weights: reset', 'C06', f'{CTRL}reset_batches', covers=['accepted'])
def account_reset(c):
    w = World(c, pending='none')
    w.assume_focus()
    b = w.b()
    P = w.P.elem(b)
    a, d = w.accs_at(w.accs), w.accs_at(w.defs)
    ix = focus_index(a.sshape)
    inv = lambda p: z3.Or(p == 1, p <= 1 - w.eps)
    ue = z3.Real('u')
    c.assume(inv(P))
    c.assume(a.elem(ix) == d.elem(ix) + P * ue)
    out = attempt(lambda: controller(w).reset_batches())
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    P2 = V.num(s.probabilities.elem(b))
    a2 = s.accumulators.lookup(SymName(w.n)).leaf(w.k)
    c.prove('C06 reset_batches: below the threshold or exactly one', inv(P2))
    if c.provable(same_shape(a2.sshape, a.sshape)):
        c.prove('C06 reset_batches: the account restarts from the default', V.num(a2.elem(ix)) == d.elem(ix) + P2 * ue)
    else:
        c.fail('C06 reset_batches: the account restarts from the default', 'shape changed')


# --------------------------------------------------------------------------- cache_update
@spec('cache_update', 'C06 C07 C11 C27', f'{CTRL}cache_update src/jax_act/core/states.py:ACTStates.replace', covers=['accepted', 'refused'])
def cache(c):
    w = World(c, pending='any')
    x = z3.Const('x', NameS)
    item = w.given(x, lambda: SymTree(z3.Const('item_structure', TDS), lambda k: w.any_leaf(f'item:{k.sexpr()}'), 'item'))
    ct = controller(w)
    g = Guard(c, ct, 'cache_update')
    out = attempt(lambda: ct.cache_update(SymName(x), item))
    g.check(out)
    free = c.branch(w.has(x)) and w.upds.lookup(SymName(x)) is None
    if not free:
        c.holds('C07 cache_update: unknown or pending names are refused', not out.ok, 'accepted')
        c.cover('refused')
        return
    c.holds('C07 cache_update: a free name is accepted', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    same_state_but(c, 'C07 cache_update', g.state, s, [f for f in FIELDS if f not in ('updates', 'accumulators', 'defaults')])
    for f, d in (('accumulators', w.accs), ('defaults', w.defs)):
        entry_kept(c, f'C06 cache_update: {f}', d, getattr(s, f), w.n)
        entry_kept(c, f'C07 cache_update: {f}', d, getattr(s, f), w.n)
    c.prove('C07 cache_update: same names', s.updates.has(SymName(w.n)) == w.has(w.n))
    if c.branch(w.n == x):
        got = s.updates.lookup(SymName(w.n))
        c.holds('C07 cache_update: exactly that update becomes pending', got is item, repr(got))
    elif c.branch(w.has(w.n)):
        c.holds('C07 cache_update: other updates kept', s.updates.lookup(SymName(w.n)) is w.upds.lookup(SymName(w.n)), 'another update changed')


# --------------------------------------------------------------------------- reset_batches
@spec('reset_batches', 'C07 C08 C11 C27', f'{CTRL}reset_batches {UT}merge_pytrees {UT}setup_left_broadcast', covers=['accepted'])
def reset(c):
    w = World(c, pending='none')
    w.assume_focus()
    ct = controller(w)
    g = Guard(c, ct, 'reset_batches')
    out = attempt(lambda: ct.reset_batches())
    g.check(out)
    c.holds('C07 reset_batches: accepted when nothing is pending', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    halted = w.P.elem(b) > 1 - w.eps
    for f, t in (('probabilities', w.P), ('residuals', w.R), ('iterations', w.I)):
        t2 = getattr(s, f)
        c.prove(f'C08 reset_batches: {f} keep shape and dtype', z3.And(same_shape(t2.sshape, t.sshape), t2.dtype.z == t.dtype.z))
        c.prove(f'C08 reset_batches: {f}', V.num(t2.elem(b)) == z3.If(halted, 0, t.elem(b)))
    same_state_but(c, 'C08 reset_batches', g.state, s, ('epsilon', 'depression_constant', 'error_mode'))
    entry_kept(c, 'C08 reset_batches: defaults', w.defs, s.defaults, w.n)
    c.prove('C08 reset_batches: same names', s.accumulators.has(SymName(w.n)))
    at = s.accumulators.lookup(SymName(w.n))
    a, d = w.accs_at(w.accs), w.accs_at(w.defs)
    if not isinstance(at, SymTree):
        c.fail('C08 reset_batches: structure of the accumulator', type(at).__name__)
        return
    c.prove('C08 reset_batches: structure of the accumulator', at.td == w.td(w.n))
    a2 = at.leaf(w.k)
    ok = same_shape(a2.sshape, a.sshape)
    c.prove('C08 reset_batches: shape and dtype of a leaf', z3.And(ok, a2.dtype.z == a.dtype.z))
    if c.provable(ok):
        ix = focus_index(a.sshape)
        c.prove('C08 reset_batches: leaf', V.num(a2.elem(ix)) == z3.If(halted, d.elem(ix), a.elem(ix)))
    up = s.updates.lookup(SymName(w.n))
    c.holds('C08 reset_batches: nothing becomes pending', up is None, 'an update appeared')


@spec('reset_batches in IEEE arithmetic (inf, nan)', 'C08', f'{CTRL}reset_batches', mode='fp', covers=['accepted'])
def reset_fp(c):
    w = World(c, pending='none')
    w.assume_focus()
    out = attempt(lambda: controller(w).reset_batches())
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state
    b = w.b()
    c.assume(z3.Not(z3.fpIsInf(w.I.elem(b))))       # a count of iterations is finite
    halted = w_halted_fp(w)
    for f, t in (('probabilities', w.P), ('residuals', w.R), ('iterations', w.I)):
        got, was = V.num(getattr(s, f).elem(b)), t.elem(b)
        c.prove(f'C08 reset_batches, float32: {f} of a halted entry', z3.Implies(halted, z3.fpIsZero(got)))
        c.prove(f'C08 reset_batches, float32: {f} of another entry', z3.Implies(z3.Not(halted), z3.Or(got == was, z3.fpEQ(got, was))))
    at = s.accumulators.lookup(SymName(w.n))
    a, d = w.accs_at(w.accs), w.accs_at(w.defs)
    if not isinstance(at, SymTree):
        return
    a2 = at.leaf(w.k)
    if c.provable(same_shape(a2.sshape, a.sshape)):
        ix = focus_index(a.sshape)
        x, y = V.num(a2.elem(ix)), z3.If(halted, d.elem(ix), a.elem(ix))
        c.prove('C08 reset_batches, float32: leaf', z3.Or(x == y, z3.fpEQ(x, y)))


@spec('reset_batches while updates may be pending', 'C07', f'{CTRL}reset_batches', covers=['accepted', 'refused'])
def reset_any(c):
    w = World(c, pending='any')
    out = attempt(lambda: controller(w).reset_batches())
    if not out.ok:
        c.cover('refused')
        return
    c.cover('accepted')
    if c.branch(w.has(w.n)):
        c.holds('C07 reset_batches: refused while anything is pending', w.upds.lookup(SymName(w.n)) is None, 'accepted with a pending update')


# --------------------------------------------------------------------------- status queries
@spec('status queries', 'C25 C27', f'{CTRL}halt_threshold {CTRL}halted_batches {CTRL}is_completely_halted {CTRL}is_any_halted {CTRL}__getitem__ {VIEW}halt_threshold '
      f'{VIEW}halted_batches {CTRL}make_viewer', covers=['done'])
def status(c):
    w = World(c, pending='any')
    ct = controller(w)
    b = w.b()

    def get(f, label):
        o = attempt(f)
        c.holds(f'C25 {label}: answers', o.ok, repr(o.error))
        if not o.ok:
            raise PathEnd()
        return o.value
    for obj, who in ((ct, 'controller'), (get(lambda: ct.make_viewer(), 'make_viewer'), 'viewer')):
        for f in ('probabilities', 'residuals', 'iterations', 'accumulators') + (('depression_constant',) if who == 'controller' else ('defaults', 'updates')):
            v = get(lambda: getattr(obj, f), f'{who}.{f}')
            old = getattr(ct.state, f)
            if v is old or not isinstance(v, SymTensor):
                c.holds(f'C25 {who}.{f} is the field', v is old, 'another object')
            else:
                equal_tensor(c, f'C25 {who}.{f} is the field', v, old)
        th = get(lambda: obj.halt_threshold, f'{who}.halt_threshold')
        c.prove(f'C25 {who}.halt_threshold', V.num(fakes.as_t(th).elem(())) == 1 - w.eps)
        hb = get(lambda: obj.halted_batches, f'{who}.halted_batches')
        c.prove(f'C25 {who}.halted_batches shape', same_shape(hb.sshape, w.B))
        c.prove(f'C25 {who}.halted_batches', hb.elem(b) == (w.P.elem(b) > 1 - w.eps))
    halted = hb.elem(b)
    ne = V.nonempty_of(w.B)
    al, an = get(lambda: ct.is_completely_halted, 'is_completely_halted'), get(lambda: ct.is_any_halted, 'is_any_halted')
    # the conjunction and disjunction, by their defining consequences at the arbitrary entry and by a witness entry
    alv, anv = fakes.as_t(al).elem(()), fakes.as_t(an).elem(())
    c.prove('C25 is_completely_halted: every entry', z3.Implies(z3.And(alv, ne), halted))
    c.prove('C25 is_any_halted: no entry otherwise', z3.Implies(z3.And(z3.Not(anv), ne), z3.Not(halted)))
    spec_all, spec_any = fakes.all_(hb), fakes.any_(hb)
    c.prove('C25 is_completely_halted: only then', alv == fakes.as_t(spec_all).elem(()))
    c.prove('C25 is_any_halted: only then', anv == fakes.as_t(spec_any).elem(()))
    if c.branch(w.has(w.n)):
        got = get(lambda: ct[SymName(w.n)], 'controller[name]')
        same_tree(c, 'C25 controller[name]', w.accs.lookup(SymName(w.n)), got)
    trace_safe(c, 'status queries')
    c.cover('done')


@spec('pending queries', 'C25 C27', f'{CTRL}updates_ready_to_commit {CTRL}has_cached_updates', covers=['ready', 'not ready'])
def pending(c):
    w = World(c, pending='any')
    ct = controller(w)
    o = attempt(lambda: bool(ct.updates_ready_to_commit))
    c.holds('C25 updates_ready_to_commit: answers', o.ok, repr(o.error))
    if o.ok:
        some_not = c.branch(w.has(w.n)) and w.upds.lookup(SymName(w.n)) is None
        if o.value:
            c.cover('ready')
            c.holds('C25 updates_ready_to_commit: true only if all have an update', not some_not, 'an accumulator has none')
        else:
            c.cover('not ready')
            witnessed(c, w, 'C25 updates_ready_to_commit: false only if one has none', lambda u: u is None)


@spec('pending queries (some)', 'C25 C27', f'{CTRL}has_cached_updates', covers=['pending', 'none pending'])
def pending2(c):
    w = World(c, pending='any')
    ct = controller(w)
    o = attempt(lambda: bool(ct.has_cached_updates))
    c.holds('C25 has_cached_updates: answers', o.ok, repr(o.error))
    if o.ok:
        some = c.branch(w.has(w.n)) and w.upds.lookup(SymName(w.n)) is not None
        if o.value:
            c.cover('pending')
            witnessed(c, w, 'C25 has_cached_updates: true only if one has an update', lambda u: u is not None)
        else:
            c.cover('none pending')
            c.holds('C25 has_cached_updates: false only if none has one', not some, 'an accumulator has one')


def witnessed(c, w, name, pred):
    """Among the names met on this path one satisfies the predicate."""
    ok = False
    for t in c.witnesses + [w.n]:
        if t.sort() == NameS and c.provable(w.has(t)) and pred(w.upds.lookup(SymName(t))):
            ok = True
    c.holds(name, ok, 'no such accumulator')


# --------------------------------------------------------------------------- viewer
def viewer(w):
    from src.jax_act.core.viewer import ACTViewer
    return ACTViewer(w.state())


def masked(c, tag, w, s, keep):
    """Every tensor of the state s is the one of w where keep holds and zero elsewhere."""
    b = w.b()

    def one(label, t, t2):
        if not isinstance(t2, SymTensor):
            c.fail(f'{tag}: {label}', type(t2).__name__)
            return
        ok = same_shape(t2.sshape, t.sshape)
        c.prove(f'{tag}: shape of {label}', z3.And(ok, t2.dtype.z == t.dtype.z))
        if not c.provable(ok):
            return
        ix = focus_index(t.sshape)
        x, y = t.elem(ix), V.num(t2.elem(ix))
        if c.mode == 'fp':
            c.prove(f'{tag}: {label}', z3.If(keep, y == x, z3.fpIsZero(y)))
        else:
            c.prove(f'{tag}: {label}', y == z3.If(keep, x, 0))
    for f, t in (('probabilities', w.P), ('residuals', w.R), ('iterations', w.I)):
        one(f, t, getattr(s, f))
    for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
        c.prove(f'{tag}: names of {f}', getattr(s, f).has(SymName(w.n)))
        old, new = d.lookup(SymName(w.n)), getattr(s, f).lookup(SymName(w.n))
        if old is None:
            c.holds(f'{tag}: absent {f} stay absent', new is None, 'present')
            continue
        if not isinstance(new, SymTree):
            c.fail(f'{tag}: structure of {f}', type(new).__name__)
            continue
        c.prove(f'{tag}: structure of {f}', new.td == old.td)
        one(f'a leaf of {f}', old.leaf(w.k), new.leaf(w.k))


def mask_spec(c):
    w = World(c, pending='any', updates='match', probs=c.mode != 'fp')
    w.assume_focus()
    m = tensor('mask', w.B, V.BOOL, sort=z3.BoolSort())
    v = viewer(w)
    g = Guard(c, v, 'mask_data')
    out = attempt(lambda: v.mask_data(m))
    g.check(out)
    c.holds('C09 mask_data: a boolean mask of batch shape is accepted', out.ok, repr(out.error))
    if out.ok:
        c.cover('accepted')
        masked(c, 'C09 mask_data', w, out.value.state, m.elem(w.b()))
        same_state_but(c, 'C09 mask_data', g.state, out.value.state, ('epsilon', 'depression_constant', 'error_mode'))


spec('mask_data', 'C09 C11 C27', f'{VIEW}mask_data {VIEW}transform {UT}setup_left_broadcast', covers=['accepted'])(mask_spec)
spec('mask_data in IEEE arithmetic (inf, nan)', 'C09', f'{VIEW}mask_data', mode='fp', covers=['accepted'])(mask_spec)


@spec('mask_data on any mask', 'C09', f'{VIEW}mask_data', covers=['accepted', 'refused'])
def mask_any(c):
    w = World(c, pending='none')
    d = dtype('mask', False)
    boolean = c.branch(d.z == V.BOOL.z)
    m = tensor('mask', any_shape('shape:mask'), d if not boolean else V.BOOL, sort=z3.BoolSort() if boolean else None)
    out = attempt(lambda: viewer(w).mask_data(m))
    if not out.ok:
        c.cover('refused')
        return
    c.cover('accepted')
    c.prove('C09 mask_data: accepts only boolean masks', d.z == V.BOOL.z)
    c.prove('C09 mask_data: accepts only the batch shape', same_shape(m.sshape, w.B))


def only_spec(method, sign):
    def f(c):
        w = World(c, pending='any', updates='match')
        w.assume_focus()
        v = viewer(w)
        g = Guard(c, v, method)
        out = attempt(lambda: getattr(v, method)())
        g.check(out)
        c.holds(f'C09 {method}: accepted', out.ok, repr(out.error))
        if out.ok:
            c.cover('accepted')
            halted = w.P.elem(w.b()) > 1 - w.eps
            masked(c, f'C09 {method}', w, out.value.state, halted if sign else z3.Not(halted))
    return f


spec('halted_only', 'C09 C11 C27', f'{VIEW}halted_only {VIEW}halted_batches {VIEW}halt_threshold', covers=['accepted'])(only_spec('halted_only', True))
spec('unhalted_only', 'C09 C11 C27', f'{VIEW}unhalted_only', covers=['accepted'])(only_spec('unhalted_only', False))


class AnyFailure(Exception):
    """Of no class that the code could know."""


@spec('transform', 'C10 C11 C27', f'{VIEW}transform', covers=['accepted', 'failing'])
def transform(c):
    w = World(c, pending='any', updates='any')
    w.assume_focus()
    v = viewer(w)
    g = Guard(c, v, 'transform')
    calls = []
    failing = c.choose(2) == 1
    shape = any_shape('shape of the images') if not failing and c.choose(2) else None
    state = {'raised': False}

    def function(t):
        if not isinstance(t, SymTensor):
            c.fail('C10 transform: applied to tensors only', f'applied to {type(t).__name__}')
        calls.append(t)
        if failing and c.choose(2) == 1:
            state['raised'] = True
            raise AnyFailure('the function fails')
        n = c.name('image')
        r = tensor(n, shape or t.sshape, t.dtype if failing else dtype('of:' + n, False))
        r.src = t
        return r
    out = attempt(lambda: v.transform(function))
    g.check(out)
    if state['raised']:
        c.cover('failing')
        c.holds('C10 transform: a failure is reported as RuntimeError', isinstance(out.error, RuntimeError), repr(out.error) if out.error else 'no error')
        return
    c.holds('C10 transform: succeeds', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('accepted')
    s = out.value.state

    def image(label, t, t2):
        src = None if t2 is t or not isinstance(t2, SymTensor) else t2.src        # a tensor itself is no image
        c.holds(f'C10 transform: {label} is the image of its own source', src is t, 'of something else')
        n = sum(1 for x in calls if x is t)
        c.holds(f'C10 transform: {label} transformed exactly once', n == 1, f'{n} times')
    for f, t in (('probabilities', w.P), ('residuals', w.R), ('iterations', w.I)):
        image(f, t, getattr(s, f))
    for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
        c.prove(f'C10 transform: names of {f}', getattr(s, f).has(SymName(w.n)))
        old, new = d.lookup(SymName(w.n)), getattr(s, f).lookup(SymName(w.n))
        if old is None:
            c.holds(f'C10 transform: absent {f} stay absent', new is None, 'present')
            continue
        if not isinstance(new, SymTree):
            c.fail(f'C10 transform: structure of {f}', type(new).__name__)
            continue
        c.prove(f'C10 transform: structure of {f}', new.td == old.td)
        if f != 'updates' or c.branch(w.k < old.n):              # a pending update may have any structure
            image(f'a leaf of {f}', old.leaf(w.k), new.leaf(w.k))
    same_state_but(c, 'C10 transform', g.state, s, ('epsilon', 'depression_constant', 'error_mode'))
    bad = [t for t in calls if not any(t is x for x in (w.P, w.R, w.I)) and getattr(t, 'label', '').split(':')[0] not in ('acc', 'def', 'upd')]
    c.holds('C10 transform: applied to nothing else', not bad, str([getattr(b, 'label', '?') for b in bad]))
