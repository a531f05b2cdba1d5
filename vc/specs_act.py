"""Contracts of the act loop, of the layer validation and of the flax layer."""
import collections
import dataclasses
import z3
import values as V, fakes
from core import PathEnd, Unsupported
from registry import spec
from world import *
from specs_core import witnessed, trace_safe

ACT = 'src/jax_act/layers/act.py:'
LC = 'src/jax_act/layers/core.py:ContractValidationWrapper.'
FX = 'src/jax_act/frameworks/flax.py:FlaxACTLayer.'


class Thing:
    """An object the code can only pass on."""
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return self.label

    def _unknown(self, *a):
        raise Unsupported('use of ' + self.label)

    __bool__ = __len__ = __iter__ = __float__ = __int__ = __getitem__ = _unknown


def a_state(kind, label, later=False):
    """A state the layer works on: anything it likes, here some kinds of it."""
    if kind == 1:
        return None
    if kind in (2, 3):
        d = SymDict()
        for n in ('x', 'y')[:1 if kind == 3 and later else 2]:        # kind 3: one that loses a name on its way
            d[n] = Thing(f'{label}, {n}')
        return d
    if kind == 4:
        return (Thing(label + ', first'), Thing(label + ', second'))
    if kind == 5:
        return SymList([('c', Thing(label + ', first'))])
    if kind == 6:
        return SymTensor(SymTuple([]), lambda ix: z3.Real('content of ' + label), V.F32)
    return Thing(label)


def alike(x, o):
    """The very same values, in containers of the same kind."""
    if x is o:
        return True
    if isinstance(x, SymDict) and isinstance(o, SymDict) and x.concrete_keys() is not None and o.concrete_keys() is not None:
        ks = x.concrete_keys()
        return sorted(ks) == sorted(o.concrete_keys()) and all(alike(x.lookup(k), o.lookup(k)) for k in ks)
    if isinstance(x, SymList) and isinstance(o, SymList) and x.concrete() and o.concrete():
        x, o = list(x.values()), list(o.values())
        return len(x) == len(o) and all(alike(a, b) for a, b in zip(x, o))
    if type(x) is tuple and type(o) is tuple:
        return len(x) == len(o) and all(alike(a, b) for a, b in zip(x, o))
    return False


def some_controller(c, tag, pending, cls=None):
    """A controller of its own: nothing is known about its contents but what its class guarantees."""
    from src.jax_act.core.controller import ACT_Controller
    w = World(c, pending=pending, tag=tag)
    return w, (cls or ACT_Controller)(w.state())


def unhalted(ct, w):
    """Whether some entry of a controller is not halted, from the definition of halting."""
    p = ct.state.probabilities
    halted = fakes.binop('gt', p, scalar(1 - w.eps, True))
    al = fakes.all_(halted)
    return z3.Not(al.elem(()))


# ----------------------------------------------------------------------------------- C22
class Loc:
    """What the state of a while loop consists of: where the controller, the state and the numbers sit."""
    def __init__(self, special):
        self.special = special          # list of (kind, object)

    def split(self, x, out):
        for kind, o in self.special:
            if alike(x, o):
                out.append((kind, x))
                return (kind,)
        if isinstance(x, (bool, float, str)) or x is None:
            out.append(('same', x))
            return ('same',)
        if isinstance(x, Thing):
            out.append(('thing', x))
            return ('thing',)
        if isinstance(x, (int, SymInt)) or isinstance(x, SymTensor) and not x.sshape.items:
            out.append(('num', x))
            return ('num',)
        if dataclasses.is_dataclass(x):
            return ('data', type(x), [(f.name, self.split(getattr(x, f.name), out)) for f in dataclasses.fields(x)])
        if isinstance(x, tuple):
            return ('tuple', type(x), [self.split(y, out) for y in x])
        if isinstance(x, SymList) and x.concrete():
            return ('list', [self.split(y, out) for y in x.values()])
        if isinstance(x, SymDict) and x.concrete_keys() is not None:
            return ('dict', [(k, self.split(x.lookup(k), out)) for k in x.concrete_keys()])
        raise Unsupported('loop state of an unknown kind: ' + type(x).__name__)

    @staticmethod
    def build(sk, vals):
        k = sk[0]
        if k == 'data':
            return sk[1](**{n: Loc.build(s, vals) for n, s in sk[2]})
        if k == 'tuple':
            r = [Loc.build(s, vals) for s in sk[2]]
            return sk[1](*r) if hasattr(sk[1], '_fields') else tuple(r)
        if k == 'list':
            return SymList([('c', Loc.build(s, vals)) for s in sk[1]])
        if k == 'dict':
            d = SymDict()
            for n, s in sk[1]:
                d[n] = Loc.build(s, vals)
            return d
        return vals.pop(0)


def intval(x):
    t = x.elem(()) if isinstance(x, SymTensor) else int_(x)
    return t


def int_(x):
    return V.int_term(x)


def traced(z):
    """A number inside of a compiled loop."""
    return SymTensor(SymTuple([]), lambda ix: z, V.I32)


@spec('execute_act', 'C22 C26 C27', f'{ACT}AbstractACTTemplate.execute_act {ACT}AbstractACTTemplate._is_act_not_complete {ACT}AbstractACTTemplate._while_loop_adapter_factory '
      f'{ACT}ACTMetaData.increase_counter {LC}make_controller {LC}run_iteration', covers=['looped'])
def execute(c):
    from src.jax_act.layers.act import AbstractACTTemplate
    check = c.choose(2) == 0
    w, start = some_controller(c, '', 'none')
    w.nonempty()         # a correct layer has accumulators
    sort = c.choose(7)
    s0, extra, kw = a_state(sort, 'initial state'), (Thing('extra argument'), None, False)[sort % 3], (Thing('keyword argument'), None, 0)[(sort + 1) % 3]
    dep0 = real('depression', lambda z: 0 <= z)
    dep = scalar(dep0, True, traced=True)
    maxi = SymInt(z3.Int('max_iterations'))
    log = []

    ignored = Thing('ignored')

    class Layer(AbstractACTTemplate):
        def make_controller(self, *a, **k):
            log.append(('make', a, k))
            return start

        def setup_lazy_parameters(self, controller, state):
            log.append(('lazy', controller, state))
            return ignored

        def run_iteration(self, controller, state):
            _, ct = some_controller(c, f'#{len(log)}', 'none')
            st = a_state(sort, f'state {len(log)}', True)
            log.append(('run', controller, state, ct, st))
            return ct, st

    seen = []

    def hook(cond, body, init):
        seen.append(1)
        if len(seen) > 1:
            raise Unsupported('several loops')
        c.holds('C26 execute_act: parameters are set up before the loop', [e[0] for e in log].count('lazy') == 1, str([e[0] for e in log]))
        c.holds('C22 execute_act: no iteration outside of the loop', not any(e[0] == 'run' for e in log), 'run_iteration called before the loop')
        parts = []
        loc = Loc([('controller', start), ('state', s0)])
        sk = loc.split(init, parts)
        c.holds('C22 execute_act: starts from the made controller', [p[0] for p in parts].count('controller') == 1, 'the made controller is not in the loop state')
        c.holds('C22 execute_act: starts from the initial state', [p[0] for p in parts].count('state') == 1, 'the initial state is not in the loop state')
        c.holds('C26 execute_act: the result of the setup is discarded', not any(p[1] is ignored for p in parts), 'it is in the loop state')
        if any([p[0] for p in parts].count(k) != 1 for k in ('controller', 'state')):
            raise PathEnd()

        def state_at(ct, st, nums):
            nums = list(nums)
            return Loc.build(sk, [ct if k == 'controller' else st if k == 'state' else traced(nums.pop(0)) if k == 'num' else v for k, v in parts])
        n0 = [intval(v) for k, v in parts if k == 'num']
        # what one iteration does to the numbers of the loop state
        w1, ct1 = some_controller(c, 'first', 'none')
        one = step(c, body, loc, sk, parts, state_at(ct1, a_state(sort, 'first'), n0), ct1, log, check)
        delta = [z3.simplify(b - a) for a, b in zip(n0, one)]
        if not all(z3.is_int_value(d) for d in delta):
            raise Unsupported('a loop counter that does not advance by a constant')
        # the k-th iteration, from any controller and state
        k = z3.Int('iterations done')
        c.assume(k >= 0)
        nk = [z3.simplify(a + d * k) for a, d in zip(n0, delta)]
        wk, ctk = some_controller(c, 'k', 'none')
        gen = state_at(ctk, a_state(sort, 'k'), nk)
        r = fakes.as_t(cond(gen))
        if not c.provable(r.sshape.rank() == 0):
            raise Unsupported('loop condition that is not a scalar')
        e = r.elem(())
        c.prove('C22 execute_act: iterates as long as some entry is unhalted and the maximum is not reached',
                (e if z3.is_bool(e) else e != 0) == z3.And(unhalted(ctk, wk), k < maxi.z))
        nxt = step(c, body, loc, sk, parts, gen, ctk, log, check)
        for a, b, d in zip(nk, nxt, delta):
            if not c.provable(b == a + d):
                raise Unsupported('a loop counter that does not advance by a constant')
        c.cover('looped')
        # the loop ends in a state in which the condition fails
        wz, ctz = some_controller(c, 'end', 'none')
        z = a_state(sort, 'final state')
        result.append((ctz, z))
        kz = z3.Int('iterations in all')
        c.assume(kz >= 0)
        return state_at(ctz, z, [z3.simplify(a + d * kz) for a, d in zip(n0, delta)])
    result = []
    c.while_hook = hook
    out = attempt(lambda: Layer().execute_act(s0, dep, maxi, check, extra, key=kw))
    c.holds('C22 execute_act: a correct layer is run', out.ok, repr(out.error))
    if not out.ok:
        return
    trace_safe(c, 'execute_act')
    makes = [e for e in log if e[0] == 'make']
    c.holds('C22 execute_act: makes one controller', len(makes) == 1, f'{len(makes)} controllers')
    if makes:
        _, a, k = makes[0]
        try:
            b = bound(lambda initial_state, depression_constant, *args, **kwargs: (initial_state, depression_constant, args, kwargs), a, k)
        except TypeError:
            b = None
        ok = b is not None and alike(b[0], s0) and len(b[2]) == 1 and b[2][0] is extra and list(b[3]) == ['key'] and b[3]['key'] is kw
        c.holds('C22 execute_act: the controller is made from the initial state and the extra arguments', ok, str((a, k)))
        if ok and b[1] is not dep:
            d = fakes.as_t(b[1])
            c.prove('C22 execute_act: the controller is made with the depression constant', z3.And(d.sshape.rank() == 0, V.num(d.elem(())) == dep0))
    lazies = [e for e in log if e[0] == 'lazy']
    c.holds('C26 execute_act: parameters are set up once', len(lazies) == 1, f'{len(lazies)} times')
    for e in lazies:
        c.holds('C26 execute_act: parameters are set up from the initial controller and state', e[1] is start and alike(e[2], s0), 'other arguments')
    v = out.value
    if not (isinstance(v, tuple) and len(v) == 2):
        c.fail('C22 execute_act: returns a pair', type(v).__name__)
        return
    if seen:
        c.holds('C22 execute_act: returns the final controller', v[0] is result[0][0], 'another controller')
        c.holds('C22 execute_act: returns the final state', alike(v[1], result[0][1]), 'another state')
    else:
        c.prove('C22 execute_act: without a loop only when none is due', z3.Not(z3.And(unhalted(start, w), 0 < maxi.z)))
        c.holds('C22 execute_act: returns the final controller', v[0] is start, 'another controller')
        c.holds('C22 execute_act: returns the final state', alike(v[1], s0), 'another state')


def bound(f, a, k):
    return f(*a, **dict(k))


def step(c, body, loc, sk, parts, state, ct, log, check):
    """One execution of the loop body; returns the numbers of the new state."""
    before = len(log)
    o = attempt(lambda: body(state))
    c.holds('C22 execute_act: an iteration succeeds', o.ok, repr(o.error))
    if not o.ok:
        raise PathEnd()
    new = log[before:]
    runs = [e for e in new if e[0] == 'run']
    c.holds('C22 execute_act: one layer iteration at a time', len(runs) == 1 and len(new) == 1, str([e[0] for e in new]))
    if len(runs) != 1:
        raise PathEnd()
    _, a, b, ct2, st2 = runs[0]
    got = []
    st_in = [v for k, v in zip([p[0] for p in parts], leaves_of(loc, sk, state)) if k == 'state'][0]
    c.holds('C22 execute_act: the iteration gets the current controller', a is ct, 'another controller')
    c.holds('C22 execute_act: the iteration gets the current state', alike(b, st_in), 'another state')
    loc2 = Loc([('controller', ct2), ('state', st2)])
    sk2 = loc2.split(o.value, got)
    # jax refuses a body that changes the structure
    if [k for k, _ in got] != [k for k, _ in parts] or str(sk2) != str(sk):
        c.fail('C22 execute_act: the iteration hands on the new controller and state', f'{[k for k, _ in got]}')
        raise PathEnd()
    c.holds('C22 execute_act: the iteration hands on the new controller and state', True)
    for (k, v), (_, v0) in zip(got, parts):
        if k == 'same':
            c.holds('C22 execute_act: constants of the loop are kept', v is v0 or v == v0, repr(v))
        if k == 'num' and isinstance(v, SymTensor):
            c.prove('C22 execute_act: the counter keeps its type', v.dtype.z == V.I32.z)
    return [intval(v) for k, v in got if k == 'num']


def leaves_of(loc, sk, x):
    k = sk[0]
    if k == 'data':
        return [y for n, s in sk[2] for y in leaves_of(loc, s, getattr(x, n))]
    if k == 'tuple':
        return [y for s, z in zip(sk[2], x) for y in leaves_of(loc, s, z)]
    if k == 'list':
        return [y for s, z in zip(sk[1], x.values()) for y in leaves_of(loc, s, z)]
    if k == 'dict':
        return [y for n, s in sk[1] for y in leaves_of(loc, s, x.lookup(n))]
    return [x]


# ----------------------------------------------------------------------------------- C23
Couple = collections.namedtuple('Couple', 'controller state')


def refused(out):
    return not out.ok and isinstance(out.error, (TypeError, RuntimeError))


class Recorder:
    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def make_controller(self, *a, **k):
        self.calls.append((a, k))
        return self.answer

    run_iteration = make_controller


def wrapper_of(c, layer, check, seasoned):
    """A wrapper, new or used for flawless calls before. A wrapper that calls leave as it was behaves the same after any number of them."""
    from src.jax_act.layers.core import ContractValidationWrapper
    wrapper = ContractValidationWrapper(layer, check)
    was = dict(vars(wrapper))
    if seasoned:
        true, old = layer.answer, some_controller(c, 'before', 'none')[1]
        w, new = some_controller(c, 'good', 'none')
        w.nonempty()
        layer.answer = new
        first = attempt(lambda: wrapper.make_controller(Thing('state')))
        layer.answer = (new, Thing('state'))
        second = attempt(lambda: wrapper.run_iteration(old, Thing('state')))
        c.holds('C23: a correct layer is accepted before', first.ok and second.ok, repr(first.error or second.error))
        layer.answer = true
        layer.calls.clear()

    def unchanged():
        now = dict(vars(wrapper))
        if now.keys() != was.keys() or any(now[k] is not v for k, v in was.items()):
            raise Unsupported('a call leaves the wrapper changed: other histories of one wrapper')
    return wrapper, unchanged


@spec('layer validation: make_controller', 'C23', f'{LC}make_controller {LC}_validate_is_controller {LC}_validate_controller_not_empty {LC}_execute_validation',
      covers=['refused', 'accepted', 'unchecked'])
def validate_make(c):
    from src.jax_act.core.controller import ACT_Controller

    class Sub(ACT_Controller):
        pass
    check = c.choose(2) == 0
    kind = c.choose(6)
    w, ct = some_controller(c, '', 'none', Sub if kind == 1 else None)
    bad = [None, None, Thing('no controller'), None, ct.state, ACT_Controller][kind]
    answer = ct if kind < 2 else bad
    breach = kind >= 2 or not c.branch(w.acc_map.card() > 0)
    layer = Recorder(answer)
    wrapper, unchanged = wrapper_of(c, layer, check, c.choose(2))
    sort = c.choose(3)
    s0, x, y = a_state(sort, 'state'), a_state(sort, 'x'), a_state(sort, 'y')
    out = attempt(lambda: wrapper.make_controller(s0, x, key=y))
    ok = len(layer.calls) == 1 and layer.calls[0][0] == (s0, x) and list(layer.calls[0][1].items()) == [('key', y)]
    c.holds('C23 make_controller: the layer is asked once with the very arguments', ok, str(layer.calls))
    if check and breach:
        c.holds('C23 make_controller: a breach is refused', refused(out), repr(out.error) if out.error else 'accepted')
        c.cover('refused')
        unchanged()
        return
    c.holds('C23 make_controller: ' + ('a correct layer is accepted' if check else 'nothing is refused without checking'), out.ok, repr(out.error))
    if out.ok:
        c.cover('accepted' if check else 'unchecked')
        c.holds('C23 make_controller: the answer is passed on', out.value is answer, 'something else')
    unchanged()


@spec('layer validation: run_iteration', 'C23', f'{LC}run_iteration {LC}_validate_is_tuple {LC}_validate_length_two {LC}_validate_is_controller '
      f'{LC}_validate_is_novel_controller {LC}_validate_all_act_updates_committed {LC}_execute_validation', covers=['refused', 'accepted', 'unchecked', 'pending'])
def validate_run(c):
    from src.jax_act.core.controller import ACT_Controller
    check = c.choose(2) == 0
    w0, old = some_controller(c, 'old', 'none')
    sort = c.choose(3)
    st0, st = a_state(sort, 'state'), a_state(sort, 'new state')
    kind = c.choose(12)
    w, new = some_controller(c, 'new', 'any')
    w.nonempty()
    answer = [(new, st), (old, st), SymList([('c', new), ('c', st)]), (new,), (new, st, st), (), None, (Thing('no controller'), st), (None, st), (st, new), Couple(new, st), (ACT_Controller(old.state), st)][kind]
    anew = kind == 11
    kind = 0 if kind > 9 else kind       # any pair will do, and any controller but the given one
    layer = Recorder(answer)
    wrapper, unchanged = wrapper_of(c, layer, check, c.choose(2))
    out = attempt(lambda: wrapper.run_iteration(old, st0))
    ok = len(layer.calls) == 1 and layer.calls[0][0] == (old, st0) and not layer.calls[0][1]
    c.holds('C23 run_iteration: the layer is asked once with the very arguments', ok, str(layer.calls))
    if not check:
        c.cover('unchecked')
        c.holds('C23 run_iteration: nothing is refused without checking', out.ok, repr(out.error))
    elif kind:
        c.cover('refused')
        c.holds('C23 run_iteration: a breach is refused', refused(out), repr(out.error) if out.error else 'accepted')
    elif anew:
        c.holds('C23 run_iteration: a new controller of the old state is accepted', out.ok, repr(out.error))
    elif out.ok:
        c.cover('accepted')
        if c.branch(w.has(w.n)):
            c.holds('C23 run_iteration: uncommitted updates are refused', w.upds.lookup(SymName(w.n)) is None, 'accepted with a pending update')
    else:
        c.cover('pending')
        c.holds('C23 run_iteration: refused with TypeError or RuntimeError', refused(out), repr(out.error))
        witnessed(c, w, 'C23 run_iteration: a correct layer is accepted', lambda u: u is not None)
    if out.ok:
        c.holds('C23 run_iteration: the answer is passed on', out.value is answer, 'something else')
    unchanged()


# ----------------------------------------------------------------------------------- C26
def flax_layer(c, log):
    from src.jax_act.frameworks.flax import FlaxACTLayer

    class Layer(FlaxACTLayer):
        def make_controller(self, *a, **k):
            log.append(('make', a, k))

        def run_iteration(self, *a, **k):
            log.append(('run', a, k))
            return some_controller(c, f'new{len(log)}', 'none')[1], Thing('new state')

        def vc_mutable(self, col):
            return V.SymBool(z3.Bool(f'mutable:{col}'))
    return Layer()


@spec('flax layer', 'C26', f'{FX}setup {FX}setup_lazy_parameters', covers=['mutable', 'immutable'])
def flax_setup(c):
    log = []
    layer = flax_layer(c, log)
    o = attempt(lambda: layer.setup())
    c.holds('C26 setup: a layer that does not implement it is refused with NotImplementedError', isinstance(o.error, NotImplementedError), repr(o.error))
    ct, st = some_controller(c, '', 'none')[1], a_state(c.choose(7), 'state')
    before = dict(vars(layer))
    o = attempt(lambda: layer.setup_lazy_parameters(ct, st))
    c.holds('C26 setup_lazy_parameters: succeeds', o.ok, repr(o.error))
    runs = [e for e in log if e[0] == 'run']
    if c.branch(z3.Bool('mutable:params')):
        c.cover('mutable')
        c.holds('C26 setup_lazy_parameters: one iteration when the parameters are mutable', len(runs) == 1, f'{len(runs)} iterations')
    else:
        c.cover('immutable')
        c.holds('C26 setup_lazy_parameters: no iteration otherwise', not runs, f'{len(runs)} iterations')
    for e in runs:
        k = dict(e[2])
        try:
            b = bound(lambda controller, state: (controller, state), e[1], k)
        except TypeError:
            b = (None, None)
        c.holds('C26 setup_lazy_parameters: on the given controller and state', b[0] is ct and alike(b[1], st), str(e))
    c.holds('C26 setup_lazy_parameters: nothing is kept', dict(vars(layer)) == before and len(log) == len(runs), 'an attribute or a call')
