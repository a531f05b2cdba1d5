"""Contracts of differentiation (C28).

What a step computes is, entry by entry, a term over the entries of its inputs.  Its derivative with the decisions held
constant is taken of that very term; `jax.lax.stop_gradient` stays visible in it as a marker with derivative zero.
That jax differentiates its primitives this way, and composes steps by the chain rule, is trusted.
"""
import z3
import values as V, fakes
from core import PathEnd, Unsupported
from registry import spec
from world import *
from specs_core import CTRL, VIEW, UT, controller, viewer, weights
from specs_act import ACT, LC, Thing, some_controller
from specs_build import BLD, EDT, builder, definition, obj_of


def diff(t, x, memo=None):
    """The derivative of the term t by its subterm x, conditions taken as constant."""
    memo = {} if memo is None else memo
    key = t.get_id()
    if key in memo:
        return memo[key][0]
    r = _diff(t, x, lambda u: diff(u, x, memo))
    memo[key] = (r, t)
    return r


ZERO, ONE = z3.RealVal(0), z3.RealVal(1)


def _diff(t, x, d):
    if t.eq(x):
        return ONE
    if z3.is_int(t) or z3.is_bool(t) or z3.is_rational_value(t):
        return ZERO
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return z3.Sum([d(u) for u in ch])
    if k == z3.Z3_OP_SUB:
        r = d(ch[0])
        for u in ch[1:]:
            r = r - d(u)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -d(ch[0])
    if k == z3.Z3_OP_MUL:
        terms = []
        for i, u in enumerate(ch):
            e = d(u)
            for j, v in enumerate(ch):
                if j != i:
                    e = e * v
            terms.append(e)
        return z3.Sum(terms)
    if k == z3.Z3_OP_DIV:
        a, b = ch
        return (d(a) * b - a * d(b)) / (b * b)
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], d(ch[1]), d(ch[2]))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        return ch[1] * ch[0] ** z3.simplify(ch[1] - 1) * d(ch[0])
    if k == z3.Z3_OP_TO_REAL:
        return ZERO
    if k == z3.Z3_OP_UNINTERPRETED:
        if t.decl().name().startswith('held:'):
            return ZERO
        if ch and (t.decl().eq(x.decl()) or any(mentions(u, x) for u in ch)):
            raise Unsupported('derivative of ' + t.decl().name())
        return ZERO
    raise Unsupported('derivative of ' + t.decl().name())


def mentions(t, x):
    return t.eq(x) or any(mentions(u, x) for u in t.children())


def derivatives(c, tag, term, wanted):
    """One obligation per input: label -> (input, derivative from the property)."""
    term = V.num(term)
    for label, (x, want) in wanted.items():
        c.prove(f'C28 {tag} by {label}', diff(term, x) == want)


def nothing_held(c, tag):
    held = [e for e in c.events if e[0] == 'held']
    c.holds(f'C28 {tag}: no value is cut off from differentiation', not held, str(held))


@spec('derivatives of an iteration', 'C28', f'{CTRL}iterate_act {CTRL}_process_probabilities {CTRL}_update_accumulator {UT}merge_pytrees {UT}setup_left_broadcast', covers=['done'])
def grad_iterate(c):
    w = World(c, pending='all')
    w.assume_focus()
    hp = tensor('h', w.B, w.D, fact=lambda v: z3.And(0 < v, v < 1))      # at the bounds of the clipping there is no derivative
    out = attempt(lambda: controller(w).iterate_act(hp))
    if not out.ok:
        return
    s, b = out.value.state, w.b()
    h = hp.elem(b)
    P, hd, thr, will, halted, wt = weights(w, h)
    now = z3.And(will, z3.Not(halted))
    R = w.R.elem(b)
    at = s.accumulators.lookup(SymName(w.n))
    if not isinstance(at, SymTree):
        return
    a, u, a2 = w.accs_at(w.accs), w.accs_at(w.upds), at.leaf(w.k)
    if not c.provable(same_shape(a2.sshape, a.sshape)):
        return
    c.cover('done')
    ix = focus_index(a.sshape)
    x, z = a.elem(ix), u.elem(ix)
    derivatives(c, 'iterate_act: accumulator', a2.elem(ix), {
        'the accumulator': (x, ONE),
        'the update': (z, z3.If(halted, 0, wt)),
        'the halting probability': (h, z3.If(will, 0, w.dep) * z),
        'the cumulative probability': (P, z3.If(now, -z, 0)),
        'the depression constant': (w.dep, z3.If(z3.Or(will, halted), 0, h) * z),
        'the default': (w.accs_at(w.defs).elem(ix), ZERO)})
    derivatives(c, 'iterate_act: residual', s.residuals.elem(b), {
        'the residual': (R, z3.If(now, 0, ONE)),
        'the halting probability': (h, ZERO),
        'the depression constant': (w.dep, ZERO),
        'the cumulative probability': (P, z3.If(now, -ONE, 0))})
    derivatives(c, 'iterate_act: cumulative probability', s.probabilities.elem(b), {
        'the halting probability': (h, z3.If(will, 0, w.dep)),
        'the depression constant': (w.dep, z3.If(will, 0, h)),
        'the cumulative probability': (P, z3.If(will, ZERO, 1))})


@spec('derivatives of a reset', 'C28', f'{CTRL}reset_batches {UT}merge_pytrees {UT}setup_left_broadcast', covers=['done'])
def grad_reset(c):
    w = World(c, pending='none')
    w.assume_focus()
    out = attempt(lambda: controller(w).reset_batches())
    if not out.ok:
        return
    s, b = out.value.state, w.b()
    halted = w.P.elem(b) > 1 - w.eps
    at = s.accumulators.lookup(SymName(w.n))
    if not isinstance(at, SymTree):
        return
    a, d, a2 = w.accs_at(w.accs), w.accs_at(w.defs), at.leaf(w.k)
    if not c.provable(same_shape(a2.sshape, a.sshape)):
        return
    c.cover('done')
    ix = focus_index(a.sshape)
    keep, fresh = z3.If(halted, ZERO, 1), z3.If(halted, ONE, 0)
    derivatives(c, 'reset_batches: accumulator', a2.elem(ix), {'the accumulator': (a.elem(ix), keep), 'the default': (d.elem(ix), fresh)})
    derivatives(c, 'reset_batches: residual', s.residuals.elem(b), {'the residual': (w.R.elem(b), keep)})
    derivatives(c, 'reset_batches: cumulative probability', s.probabilities.elem(b), {'the cumulative probability': (w.P.elem(b), keep)})


@spec('derivatives through caching and reading', 'C28', f'{CTRL}cache_update {CTRL}__getitem__ {CTRL}accumulators {CTRL}residuals {CTRL}probabilities', covers=['cached', 'read'])
def grad_pass(c):
    w = World(c, pending='any')
    w.assume_focus()
    ct = controller(w)
    b = w.b()
    item = w.given(w.n, lambda: SymTree(z3.Const('item_structure', TDS), lambda k: w.any_leaf(f'item:{k.sexpr()}'), 'item'))

    def leaf(tag, old, new):
        """A leaf handed on: the derivative by itself is one."""
        if not isinstance(new, SymTree):
            c.fail(f'C28 {tag}', type(new).__name__)
            return
        if not c.provable(z3.And(w.k >= 0, w.k < old.n, w.k < new.n)):
            return
        x, y = old.leaf(w.k), new.leaf(w.k)
        if c.provable(same_shape(x.sshape, y.sshape)):
            ix = focus_index(x.sshape)
            derivatives(c, tag, y.elem(ix), {'itself': (x.elem(ix), ONE)})
    for tag, get in (('controller[name]', lambda: ct[SymName(w.n)]), ('accumulators', lambda: ct.accumulators.lookup(SymName(w.n)))):
        o = attempt(get)
        if o.ok:
            c.cover('read')
            leaf(tag, w.accs.lookup(SymName(w.n)), o.value)
    for f, t in (('residuals', w.R), ('probabilities', w.P)):
        o = attempt(lambda: getattr(ct, f))
        if o.ok and isinstance(o.value, SymTensor) and c.provable(same_shape(o.value.sshape, w.B)):
            derivatives(c, f, o.value.elem(b), {'itself': (t.elem(b), ONE)})
    if w.upds.lookup(SymName(w.n)) is not None:
        return
    out = attempt(lambda: ct.cache_update(SymName(w.n), item))
    if not out.ok:
        return
    c.cover('cached')
    s = out.value.state
    if c.branch(z3.And(w.k >= 0, w.k < item.n)):
        leaf('cache_update: the update', item, s.updates.lookup(SymName(w.n)))
    leaf('cache_update: the accumulator', w.accs.lookup(SymName(w.n)), s.accumulators.lookup(SymName(w.n)))
    for f, t in (('residuals', w.R), ('probabilities', w.P)):
        derivatives(c, f'cache_update: {f}', getattr(s, f).elem(b), {'itself': (t.elem(b), ONE)})


@spec('derivatives through the act loop', 'C28', f'{ACT}AbstractACTTemplate.execute_act {ACT}AbstractACTTemplate._while_loop_adapter_factory {LC}make_controller {LC}run_iteration',
      covers=['looped'])
def grad_execute(c):
    from src.jax_act.layers.act import AbstractACTTemplate
    check = c.choose(2) == 0
    w, start = some_controller(c, '', 'none')
    w.nonempty()
    s0 = Thing('initial state')

    class Layer(AbstractACTTemplate):
        def make_controller(self, *a, **k):
            return start

        def setup_lazy_parameters(self, controller, state):
            return None

        def run_iteration(self, controller, state):
            _, ct = some_controller(c, '#', 'none')
            return ct, Thing('new state')

    def hook(cond, body, init):
        c.cover('looped')
        o = attempt(lambda: body(init))
        if not o.ok:
            raise PathEnd()
        return o.value
    c.while_hook = hook
    out = attempt(lambda: Layer().execute_act(s0, 1.0, 5, check))
    if out.ok:
        nothing_held(c, 'execute_act')


@spec('derivatives through a view', 'C28', f'{VIEW}mask_data {VIEW}halted_only {VIEW}unhalted_only {VIEW}transform {UT}setup_left_broadcast', covers=['done'])
def grad_view(c):
    w = World(c, pending='all')
    w.assume_focus()
    b = w.b()
    halted = w.P.elem(b) > 1 - w.eps
    m = tensor('mask', w.B, V.BOOL, sort=z3.BoolSort())
    tag, call, keep = (('mask_data', lambda v: v.mask_data(m), m.elem(b)), ('halted_only', lambda v: v.halted_only(), halted),
                       ('unhalted_only', lambda v: v.unhalted_only(), z3.Not(halted)))[c.choose(3)]
    out = attempt(lambda: call(viewer(w)))
    if not out.ok:
        return
    c.cover('done')
    s = out.value.state

    def one(label, t, t2):
        if isinstance(t2, SymTensor) and c.provable(same_shape(t2.sshape, t.sshape)):
            ix = focus_index(t.sshape)
            derivatives(c, f'{tag}: {label}', t2.elem(ix), {'itself': (t.elem(ix), z3.If(keep, ONE, 0))})
    for f, t in (('residuals', w.R), ('probabilities', w.P)):
        one(f, t, getattr(s, f))
    for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
        new = getattr(s, f).lookup(SymName(w.n))
        if isinstance(new, SymTree):
            one(f'a leaf of {f}', d.lookup(SymName(w.n)).leaf(w.k), new.leaf(w.k))


@spec('derivatives through definitions, edits and flattening', 'C28', f'{BLD}define_accumulator_directly {BLD}build {EDT}set_accumulator {EDT}set_defaults {EDT}set_updates '
      f'{EDT}set_probabilities {EDT}set_residuals {CTRL}save {CTRL}load src/jax_act/core/controller.py:flatten_controller src/jax_act/core/controller.py:unflatten_controller',
      covers=['defined', 'edited', 'rebuilt'])
def grad_build(c):
    w = World(c, pending='all')
    w.assume_focus()
    ct = controller(w)
    way = c.choose(3)

    def leaf(tag, old, new):
        if not isinstance(new, SymTree):
            c.fail(f'C28 {tag}', type(new).__name__)
        elif c.provable(z3.And(w.k >= 0, w.k < old.n, w.k < new.n)):
            x, y = old.leaf(w.k), new.leaf(w.k)
            if c.provable(same_shape(x.sshape, y.sshape)):
                ix = focus_index(x.sshape)
                derivatives(c, tag, y.elem(ix), {'itself': (x.elem(ix), ONE)})
    if way == 0:
        x = z3.Const('x', NameS)
        item = definition(w, c, True)
        out = attempt(lambda: builder(w).define_accumulator_directly(SymName(x), item).build())
        if out.ok and c.branch(z3.And(w.k >= 0, w.k < item.n)):
            c.cover('defined')
            for f in ('accumulators', 'defaults'):
                leaf(f'define_accumulator_directly: {f}', item, getattr(out.value.state, f).lookup(SymName(x)))
    elif way == 1:
        ed = obj_of('editor', w, c)
        f, m, d = (('accumulators', 'set_accumulator', w.upds), ('defaults', 'set_defaults', w.accs), ('updates', 'set_updates', w.defs))[c.choose(3)]
        value = d.lookup(SymName(w.n))
        out = attempt(lambda: getattr(ed, m)(SymName(w.n), value))
        if out.ok:
            c.cover('edited')
            leaf(f'{m}: the tree', value, getattr(out.value.state, f).lookup(SymName(w.n)))
            for g, t, u in (('probabilities', w.R, 'set_probabilities'), ('residuals', w.P, 'set_residuals')):
                o = attempt(lambda: getattr(out.value, u)(t))
                if o.ok:
                    derivatives(c, f'{u}: the tensor', getattr(o.value.state, g).elem(w.b()), {'itself': (t.elem(w.b()), ONE)})
    else:
        tu = fakes.tree_util
        out = attempt(lambda: tu.tree_unflatten(*reversed(tu.tree_flatten(ct))))
        if out.ok and type(out.value) is type(ct):
            c.cover('rebuilt')
            s = out.value.save()
            for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
                leaf(f'flattening: {f}', d.lookup(SymName(w.n)), getattr(s, f).lookup(SymName(w.n)))
            for f, t in (('residuals', w.R), ('probabilities', w.P)):
                derivatives(c, f'flattening: {f}', getattr(s, f).elem(w.b()), {'itself': (t.elem(w.b()), ONE)})
