"""Contracts of the builder, of the editor, of state derivation and of flattening."""
import z3
import values as V, fakes, rtl
from core import PathEnd
from registry import spec
from world import *
from specs_core import Guard, FIELDS, same_state_but, entry_kept, same_tree, trace_safe, controller, viewer

BLD = 'src/jax_act/core/builder.py:ControllerBuilder.'
EDT = 'src/jax_act/core/tensoreditor.py:TensorEditor.'
STA = 'src/jax_act/core/states.py:'
UT = 'src/jax_act/core/utils.py:'
DICTS = ('accumulators', 'defaults', 'updates')


def builder(w):
    from src.jax_act.core.builder import ControllerBuilder
    return ControllerBuilder(w.state())


# --------------------------------------------------------------------------- definitions
def definition(w, c, valid, tag='item'):
    """A definition: any tree; valid: floating leaves whose shape starts with the batch shape."""
    def leaf(k):
        key = (tag, k.sexpr())
        if key not in c.cache:
            if valid:
                c.cache[key] = tensor(f'{tag}:{k.sexpr()}', w.B + any_shape(f'{tag}:tail:{k.sexpr()}', True), dtype(f'{tag}:{k.sexpr()}'))
            else:
                c.cache[key] = w.any_leaf(f'{tag}:{k.sexpr()}', False)
        return c.cache[key]
    return SymTree(z3.Const(f'{tag}_structure', TDS), leaf, tag)


def starts_with(c, shape, B):
    """Whether a shape starts with the batch shape (decided on the path)."""
    s = V.as_shape(shape)
    r = B.rank()
    if not c.branch(s.rank() >= r):
        return z3.BoolVal(False)
    head, _ = s.split(r)
    return same_shape(SymTuple(head) if not isinstance(head, SymTuple) else head, B)


def defined(c, w, s, x, item, tag):
    """After defining x as item."""
    same_state_but(c, f'C12 {tag}', w_old(w), s, [f for f in FIELDS if f not in DICTS])
    n = w.n
    here = c.branch(n == x)
    for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
        new = getattr(s, f)
        if here:
            c.prove(f'C12 {tag}: name registered in {f}', new.has(SymName(n)))
            if not c.provable(new.has(SymName(n))):
                continue
            got = new.lookup(SymName(n))
            if f == 'updates':
                c.holds(f'C12 {tag}: no update pending', got is None, repr(got))
            else:
                same_tree(c, f'C12 {tag}: value registered in {f}', item, got, w.k)
        else:
            entry_kept(c, f'C12 {tag}: other {f}', d, new, n)


def w_old(w):
    class S:
        pass
    s = S()
    s.epsilon, s.iterations, s.residuals, s.probabilities, s.defaults, s.accumulators, s.updates, s.depression_constant, s.error_mode = \
        w.eps_v, w.I, w.R, w.P, w.defs, w.accs, w.upds, w.dep_v, w.mode_v
    return s


@spec('define_accumulator_directly', 'C11 C12 C13 C27', f'{BLD}define_accumulator_directly {BLD}_define {BLD}_validate_definition_pytree {STA}ACTStates.replace', covers=['accepted'])
def define(c):
    w = World(c, pending='any')
    x = z3.Const('x', NameS)
    item = definition(w, c, True)
    bd = builder(w)
    g = Guard(c, bd, 'define_accumulator_directly')
    out = attempt(lambda: bd.define_accumulator_directly(SymName(x), item))
    g.check(out)
    c.holds('C13 define_accumulator_directly: a usable definition is accepted', out.ok, repr(out.error))
    c.holds('C12 define_accumulator_directly: succeeds', out.ok, repr(out.error))
    if out.ok:
        c.cover('accepted')
        defined(c, w, out.value.state, x, item, 'define_accumulator_directly')


@spec('define_accumulator_directly on anything', 'C13 C11', f'{BLD}define_accumulator_directly {BLD}_validate_definition_pytree', covers=['accepted', 'refused'])
def define_any(c):
    w = World(c, pending='none')
    x = z3.Const('x', NameS)
    item = definition(w, c, False)
    bd = builder(w)
    j = z3.Int('dimension')
    c.focus_dim = [j]
    g = Guard(c, bd, 'define_accumulator_directly')
    out = attempt(lambda: bd.define_accumulator_directly(SymName(x), item))
    g.check(out)
    if not out.ok:
        c.cover('refused')
        c.holds('C13 define_accumulator_directly: refused with TypeError or ValueError', isinstance(out.error, (TypeError, ValueError)), repr(out.error))
        return
    c.cover('accepted')
    if c.branch(z3.And(w.k >= 0, w.k < item.n)):
        leaf = item.leaf(w.k)
        c.prove('C13 define_accumulator_directly: accepts only floating leaves', F_isfloat(leaf.dtype.z))
        # shapes of equal rank that differ do so at some dimension
        agree = z3.And(leaf.sshape.rank() >= w.B.rank(), z3.Implies(z3.And(j >= 0, j < w.B.rank()), dim_at(leaf.sshape, j) == dim_at(w.B, j)))
        if c.provable(agree):
            c.holds('C13 define_accumulator_directly: accepts only the batch shape', True)
            return
        c.prove('C13 define_accumulator_directly: accepts only the batch shape', starts_with(c, leaf.sshape, w.B))


@spec('delete_definition', 'C11 C12 C27', f'{BLD}delete_definition {BLD}_delete_definition', covers=['accepted', 'refused'])
def delete(c):
    w = World(c, pending='any')
    x = z3.Const('x', NameS)
    bd = builder(w)
    g = Guard(c, bd, 'delete_definition')
    out = attempt(lambda: bd.delete_definition(SymName(x)))
    g.check(out)
    known = c.branch(w.has(x))
    c.holds('C12 delete_definition: refused exactly for unknown names', out.ok == known, repr(out.error))
    if not out.ok:
        c.cover('refused')
        return
    c.cover('accepted')
    s = out.value.state
    same_state_but(c, 'C12 delete_definition', w_old(w), s, [f for f in FIELDS if f not in DICTS])
    here = c.branch(w.n == x)
    for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
        if here:
            c.prove(f'C12 delete_definition: name removed from {f}', z3.Not(getattr(s, f).has(SymName(w.n))))
        else:
            entry_kept(c, f'C12 delete_definition: other {f}', d, getattr(s, f), w.n)


@spec('build', 'C12 C18', f'{BLD}build {BLD}new_builder', covers=['done'])
def build(c):
    w = World(c, pending='any')
    bd = builder(w)
    out = attempt(lambda: bd.build())
    c.holds('C12 build: succeeds', out.ok, repr(out.error))
    if out.ok:
        c.cover('done')
        from src.jax_act.core.controller import ACT_Controller
        c.holds('C12 build: a controller', isinstance(out.value, ACT_Controller), type(out.value).__name__)
        same_state_but(c, 'C12 build', bd.state, out.value.state, FIELDS)


# --------------------------------------------------------------------------- new builders
def new_builder_spec(kind):
    def f(c):
        from src.jax_act.core.builder import ControllerBuilder
        V.dtype_axioms(c)
        fp = c.mode == 'fp'
        B = any_shape('B', True)
        eps = z3.Const('epsilon', Num.sort())
        dep = z3.Const('depression', Num.sort())
        one, zero = Num.const(1), Num.const(0)
        ok_eps = z3.And(z3.fpLT(zero, eps), z3.fpLT(eps, one)) if fp else z3.And(zero < eps, eps < one)
        ev, dv = V.PyFloat(eps) if hasattr(V, 'PyFloat') else scalar(eps, True), scalar(dep, True)
        D = None
        ok_dt = z3.BoolVal(True)
        if kind == 'dtype':
            D = dtype('core', False)
            ok_dt = F_isfloat(D.z)
        out = attempt(lambda: ControllerBuilder.new_builder(B, D, ev, dv))
        good = c.branch(z3.And(ok_eps, ok_dt))
        c.holds('C13 new_builder: accepted exactly for a proper epsilon and a floating dtype', out.ok == good, repr(out.error) if out.error else 'accepted')
        if not out.ok:
            c.cover('refused')
            return
        c.cover('accepted')
        s = out.value.state
        b = focus_index(B)
        for f_ in ('probabilities', 'residuals', 'iterations'):
            t = getattr(s, f_)
            c.prove(f'C13 new_builder: shape of {f_}', same_shape(t.sshape, B))
            v = t.elem(b)
            c.prove(f'C13 new_builder: {f_} start at zero', z3.fpIsZero(V.num(v)) if fp else V.num(v) == 0)
            if D is not None:
                c.prove(f'C13 new_builder: dtype of {f_}', t.dtype.z == D.z)
            if not fp:
                c.prove(f'C06 new_builder: {f_} start at zero', V.num(v) == 0)
        n = z3.Const('n', NameS)
        for f_ in DICTS:
            has = to_bool(getattr(s, f_), n)
            c.prove(f'C13 new_builder: no {f_}', z3.Not(has))
        c.holds('C13 new_builder: epsilon', s.epsilon is ev, 'another value')
        c.holds('C13 new_builder: depression constant', s.depression_constant is dv, 'another value')
    return f


def to_bool(d, n):
    if isinstance(d, dict):
        return z3.BoolVal(False) if not d else V._unsup('python dict')
    return d.has(SymName(n))


spec('new_builder', 'C06 C13', f'{BLD}new_builder', covers=['accepted', 'refused'])(new_builder_spec('none'))
spec('new_builder with a dtype', 'C13', f'{BLD}new_builder', covers=['accepted', 'refused'])(new_builder_spec('dtype'))
spec('new_builder in IEEE arithmetic (nan)', 'C13', f'{BLD}new_builder', mode='fp', covers=['accepted', 'refused'])(new_builder_spec('none'))


# --------------------------------------------------------------------------- deriving states
def own_values(c):
    """Fields given as the very values the state has already, others anew."""
    w = World(c, pending='any')
    s = w.state()
    s0 = {f: getattr(s, f) for f in FIELDS}
    given = {'error_mode': 'standard', **{f: SymDict(BaseMap(f'new:{f}', lambda t: None)) for f in DICTS},
             **{f: scalar(z3.Real(f'new:{f}'), True) for f in ('epsilon', 'depression_constant')}, **{f: tensor(f'new:{f}', SymTuple([]), V.F32) for f in ('iterations', 'residuals', 'probabilities')}}
    replaced(c, s, s0, {f: given[f] if c.choose(2) else s0[f] for f in FIELDS if f != 'error_mode'})


def replace_spec(falsy):
    """Every subset of the fields; given values are arbitrary symbolic ones, or plain falsy python values."""
    def f(c):
        w = World(c, pending='any')
        s = w.state()
        s0 = {f: getattr(s, f) for f in FIELDS}
        new = {}
        for f in FIELDS:
            if c.choose(2) == 0:
                continue
            if f in DICTS:
                new[f] = SymDict() if falsy else SymDict(BaseMap(f'new:{f}', lambda t: None))
            elif f == 'error_mode':
                new[f] = '' if falsy else 'standard'
            elif f in ('epsilon', 'depression_constant'):
                new[f] = 0.0 if falsy else scalar(z3.Real(f'new:{f}'), True)
            else:
                new[f] = tensor(f'new:{f}', SymTuple([]), V.F32)
        replaced(c, s, s0, new)
    return f


def replaced(c, s, s0, new):
    out = attempt(lambda: s.replace(**new))
    c.holds('C16 replace: succeeds', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('done')
    for f in FIELDS:
        got = getattr(out.value, f)
        want = new.get(f, s0[f])
        c.holds(f'C16 replace: {f} ' + ('as given' if f in new else 'kept'), got is want or (isinstance(want, (str, float)) and type(got) is type(want) and got == want), f'{got!r}')
        c.holds(f'C16 replace: the original keeps {f}', getattr(s, f) is s0[f], 'changed')
    mut = [e for e in c.events if e[0] == 'mutation']
    c.holds('C16 replace: the containers of the original are kept', not mut, str(mut))
    c.holds('C16 replace: a new state', out.value is not s, 'the state itself')


spec('replace', 'C16 C18 C27', f'{STA}ACTStates.replace', covers=['done'])(replace_spec(False))
spec('replace by the values of the state itself', 'C16', f'{STA}ACTStates.replace', covers=['done'])(own_values)
spec('replace by falsy values', 'C16', f'{STA}ACTStates.replace', covers=['done'])(replace_spec(True))


# --------------------------------------------------------------------------- definition by shape
class ShapeTree(SymTree):
    """A tree described by its structure and by what stands at the leaf positions.

    is_leaf decides whether a list stays whole: a list of integers has to; a list holding anything else has to be
    descended into, and if it holds an integer then that integer is the leaf.
    """
    def leaf_segs(self, is_leaf):
        def get(k):
            v = self.leaf(k)
            if isinstance(v, Kind):
                if v.inner is not None and not bool(is_leaf(v.value)):
                    return v.inner
                return v.value
            if not bool(is_leaf(v)):
                return 7             # an integer of the list, as a leaf of its own
            return v
        return [('g', Group(self.n, get, 'shapes'))]


class Kind:
    def __init__(self, value, inner=None):
        self.value, self.inner = value, inner


def shape_list(shape):
    return shape.seq() if isinstance(shape, SymTuple) else shape


def shapes_tree(w, c, bad):
    def leaf(k):
        key = ('shapes', k.sexpr())
        if key not in c.cache:
            if bad is not None and k.eq(w.k):
                c.cache[key] = bad
            else:
                sh = w.B + any_shape(f'tail:{k.sexpr()}', True)
                c.cache[key] = shape_list(sh)
                c.cache[key].described = sh
        return c.cache[key]
    return ShapeTree(z3.Const('shapes_structure', TDS), leaf, 'shapes')


def by_shape(given, same):
    def f(c):
        w = World(c, pending='none')
        scout(c)
        x = z3.Const('x', NameS)
        item = shapes_tree(w, c, None)
        bd = builder(w)
        g = Guard(c, bd, 'define_accumulator_by_shape')
        c.assume(w.n == x if same else w.n != x)
        fill, D = z3.Real('fill'), dtype('wanted')
        kw = dict(dtype=D, fill=scalar(fill, True)) if given else {}
        out = attempt(lambda: bd.define_accumulator_by_shape(SymName(x), item, **kw))
        g.check(out)
        for p in ('C12', 'C14'):
            c.holds(f'{p} define_accumulator_by_shape: a tree of integer lists that start with the batch shape is accepted', out.ok, repr(out.error))
        if not out.ok:
            return
        c.cover('accepted')
        s = out.value.state
        same_state_but(c, 'C12 define_accumulator_by_shape', w_old(w), s, [f for f in FIELDS if f not in DICTS])
        here = c.branch(w.n == x)
        for f, d in (('accumulators', w.accs), ('defaults', w.defs), ('updates', w.upds)):
            new = getattr(s, f)
            if not here:
                entry_kept(c, f'C12 define_accumulator_by_shape: other {f}', d, new, w.n)
                continue
            c.prove(f'C14 define_accumulator_by_shape: name registered in {f}', new.has(SymName(w.n)))
            got = new.lookup(SymName(w.n))
            if f == 'updates':
                c.holds('C12 define_accumulator_by_shape: no update pending', got is None, repr(got))
                continue
            if not isinstance(got, SymTree):
                c.fail(f'C14 define_accumulator_by_shape: structure in {f}', type(got).__name__)
                continue
            c.prove(f'C14 define_accumulator_by_shape: structure in {f}', got.td == item.td)
            if c.branch(z3.And(w.k >= 0, w.k < item.n)):
                t = got.leaf(w.k)
                want = item.leaf(w.k).described
                ok = same_shape(t.sshape, want)
                c.prove(f'C14 define_accumulator_by_shape: shape of a leaf in {f}', ok)
                c.prove(f'C14 define_accumulator_by_shape: dtype of a leaf in {f}', t.dtype.z == (D.z if given else V.F32.z))
                if c.provable(ok):
                    c.prove(f'C14 define_accumulator_by_shape: content of a leaf in {f}', V.num(t.elem(focus_index(want))) == (fill if given else 0))
    return f


spec('define_accumulator_by_shape', 'C12 C14', f'{BLD}define_accumulator_by_shape {BLD}_define', covers=['accepted'])(by_shape(True, True))
spec('define_accumulator_by_shape with defaults', 'C12 C14', f'{BLD}define_accumulator_by_shape {BLD}_define', covers=['accepted'])(by_shape(False, True))
spec('define_accumulator_by_shape: other names', 'C11 C12 C27', f'{BLD}define_accumulator_by_shape {BLD}_define', covers=['accepted'])(by_shape(True, False))


@spec('define_accumulator_by_shape on anything', 'C14', f'{BLD}define_accumulator_by_shape', covers=['refused'])
def by_shape_bad(c):
    w = World(c, pending='none')
    kind = c.choose(9)
    i = V.mkint(z3.Int('i'))
    c.assume(z3.Int('i') >= 0)
    t = tensor('stray', any_shape('stray'), V.F32)
    bad = [lambda: Kind(i), lambda: Kind(2.5), lambda: Kind('text'), lambda: Kind(t),
           lambda: Kind(SymList([('c', i), ('c', 2.5)]), inner=2.5),                       # integers first
           lambda: Kind(SymList([('c', 2.5), ('c', i)]), inner=2.5),                       # integers last
           lambda: Kind(SymList([('c', i), ('c', SymList([('c', i)]))]), inner=i),
           lambda: Kind((i,), inner=i), lambda: Kind((i, i), inner=i)][kind]()          # a tuple is a node
    item = shapes_tree(w, c, bad)
    c.assume(z3.And(w.k >= 0, w.k < item.n))
    out = attempt(lambda: builder(w).define_accumulator_by_shape(SymName(z3.Const('x', NameS)), item))
    c.holds('C14 define_accumulator_by_shape: any other leaf is refused', not out.ok, 'accepted')
    if not out.ok:
        c.cover('refused')
        c.holds('C14 define_accumulator_by_shape: refused with ValueError', isinstance(out.error, ValueError), repr(out.error))


# --------------------------------------------------------------------------- editor
def editor(w, mode):
    from src.jax_act.core.tensoreditor import TensorEditor
    return TensorEditor(w.state(), mode)


SETTERS = {'set_probabilities': 'probabilities', 'set_residuals': 'residuals', 'set_iterations': 'iterations', 'set_epsilon': 'epsilon',
           'set_accumulator': 'accumulators', 'set_defaults': 'defaults', 'set_updates': 'updates'}


def edited(c, tag, w, ed, new, field):
    """Everything but one field is as before, the error mode is kept."""
    from src.jax_act.core.tensoreditor import TensorEditor
    c.holds(f'C18 {tag}: an editor', isinstance(new, TensorEditor), type(new).__name__)
    if not isinstance(new, TensorEditor):
        return
    c.holds(f'C18 {tag}: error mode kept', new.error_mode == ed.error_mode, f'{new.error_mode!r}')
    same_state_but(c, f'C18 {tag}', ed.state, new.state, [f for f in FIELDS if f not in DICTS and f != field])
    for f in DICTS:
        if f != field:
            entry_kept(c, f'C18 {tag}: {f}', getattr(ed.state, f), getattr(new.state, f), w.n)


def tensor_setter(method):
    field = SETTERS[method]

    def valid(c):
        """A value of the right shape and type with entries in range is accepted and lands in its field."""
        w = World(c, pending='any', probs=c.mode != 'fp')
        mode = ('standard', 'silence')[c.choose(2)]
        le = w.le
        rng = (lambda v: z3.And(le(Num.const(0), v), le(v, Num.const(1)))) if field != 'iterations' else (lambda v: le(Num.const(0), v))
        t = tensor('value', w.B, w.D, fact=rng if mode == 'standard' else None)
        ed = editor(w, mode)
        g = Guard(c, ed, method)
        out = attempt(lambda: getattr(ed, method)(t))
        g.check(out)
        for p in ('C17', 'C18'):
            c.holds(f'{p} {method}: a valid value is accepted' if mode == 'standard' else f'{p} {method}: nothing is refused in silence mode', out.ok, repr(out.error))
        if out.ok:
            c.cover(mode)
            got = getattr(out.value.state, field)
            if got is not t and isinstance(got, SymTensor):
                equal_tensor(c, f'C18 {method}: the given value', t, got)
            else:
                c.holds(f'C18 {method}: the given value', got is t, 'another value')
            edited(c, method, w, ed, out.value, field)

    def any_(c):
        """Whatever is accepted in standard mode has the right shape, type and range; silence refuses nothing."""
        w = World(c, pending='none', probs=c.mode != 'fp')
        mode = ('standard', 'silence')[c.choose(2)]
        t = tensor('value', any_shape('shape:value'), V.F32 if c.mode == 'fp' else dtype('value', False))
        out = attempt(lambda: getattr(editor(w, mode), method)(t))
        if mode == 'silence':
            c.holds(f'C17 {method}: nothing is refused in silence mode', out.ok, repr(out.error))
            return
        if not out.ok:
            c.cover('refused')
            return
        c.cover('accepted')
        ok = same_shape(t.sshape, w.B)
        c.prove(f'C17 {method}: accepts only the original shape', ok)
        c.prove(f'C17 {method}: accepts only the original dtype', t.dtype.z == w.D.z)
        b = focus_index(t.sshape)
        v = t.elem(b)
        if not c.branch(V.nonempty_of(t.sshape)):
            return
        c.prove(f'C17 {method}: accepts only entries that are not negative', w.le(Num.const(0), v))
        if field != 'iterations':
            c.prove(f'C17 {method}: accepts only entries that are at most one', w.le(v, Num.const(1)))
    return valid, any_


for _m in ('set_probabilities', 'set_residuals', 'set_iterations'):
    _v, _a = tensor_setter(_m)
    _f = f'{EDT}{_m} {EDT}_execute_validation {EDT}_validate_same_shape {EDT}_validate_same_dtype ' + \
        (f'{EDT}_validate_is_natural_numbers' if _m == 'set_iterations' else f'{EDT}_validate_probability')
    spec(f'{_m}', 'C11 C17 C18 C27', _f, covers=['standard', 'silence'])(_v)
    spec(f'{_m} on anything', 'C17', _f, covers=['accepted', 'refused'])(_a)
    spec(f'{_m} on anything in IEEE arithmetic (inf, nan)', 'C17', _f, mode='fp', covers=['accepted', 'refused'])(_a)


def epsilon_setter(c):
    w = World(c, pending='any', probs=c.mode != 'fp')
    mode = ('standard', 'silence')[c.choose(2)]
    e = z3.Const('new_epsilon', Num.sort())
    ev = scalar(e, True, traced=True)
    ed = editor(w, mode)
    g = Guard(c, ed, 'set_epsilon')
    out = attempt(lambda: ed.set_epsilon(ev))
    g.check(out)
    if mode == 'silence':
        for p in ('C17', 'C18'):
            c.holds(f'{p} set_epsilon: nothing is refused in silence mode', out.ok, repr(out.error))
    else:
        good = c.branch(z3.And(w.le(Num.const(0), e), w.le(e, Num.const(1))))
        c.holds('C17 set_epsilon: accepted exactly within [0,1]', out.ok == good, repr(out.error) if out.error else 'accepted')
        c.cover('good' if good else 'bad')
    if out.ok:
        c.cover('accepted')
        c.holds('C18 set_epsilon: the given value', out.value.state.epsilon is ev, 'another value')
        edited(c, 'set_epsilon', w, ed, out.value, 'epsilon')


spec('set_epsilon', 'C11 C17 C18 C27', f'{EDT}set_epsilon', covers=['accepted', 'good', 'bad'])(epsilon_setter)
spec('set_epsilon in IEEE arithmetic (nan)', 'C17', f'{EDT}set_epsilon', mode='fp', covers=['accepted', 'good', 'bad'])(epsilon_setter)


def tree_setter(method):
    field = SETTERS[method]

    def valid(c):
        """A tree that matches is accepted for a defined name and becomes the entry."""
        w = World(c, pending='any', same_dtype=False)
        mode = ('standard', 'silence')[c.choose(2)]
        x = z3.Const('x', NameS)
        absent = field == 'updates' and c.choose(2) == 1
        if mode == 'standard':
            c.assume(w.has(x))
            item = w.given(x, lambda: SymTree(w.td(x), lambda k: w.cached(('item', x, k), lambda: tensor(f'item:{k.sexpr()}', w.B + w.tail(x, k), w.ldtype(x, k))), 'item'))
        else:
            item = w.given(x, lambda: SymTree(z3.Const('item_structure', TDS), lambda k: w.cached(('item', x, k), lambda: w.any_leaf(f'item:{k.sexpr()}', False)), 'item'))
        if absent:
            item = None
        ed = editor(w, mode)
        g = Guard(c, ed, method)
        out = attempt(lambda: getattr(ed, method)(SymName(x), item))
        g.check(out)
        for p in ('C17', 'C18'):
            c.holds(f'{p} {method}: a matching tree is accepted' if mode == 'standard' else f'{p} {method}: nothing is refused in silence mode', out.ok, repr(out.error))
        if not out.ok:
            return
        c.cover(mode)
        edited(c, method, w, ed, out.value, field)
        old, new = getattr(ed.state, field), getattr(out.value.state, field)
        if c.branch(w.n == x):
            c.prove(f'C18 {method}: the entry exists', new.has(SymName(w.n)))
            got = new.lookup(SymName(w.n))
            if item is None or got is None:
                c.holds(f'C18 {method}: the given value', got is item, repr(got))
            else:
                same_tree(c, f'C18 {method}: the given value', item, got, w.k)
        else:
            entry_kept(c, f'C18 {method}: other entries', old, new, w.n)

    def any_(c):
        w = World(c, pending='any' if field == 'updates' else 'none', same_dtype=False)
        x = z3.Const('x', NameS)
        item = w.given(x, lambda: SymTree(z3.Const('item_structure', TDS), lambda k: w.cached(('item', x, k), lambda: w.any_leaf(f'item:{k.sexpr()}', False)), 'item'))
        absent = field == 'updates' and c.choose(2) == 1
        ed = editor(w, 'standard')
        g = Guard(c, ed, method)
        out = attempt(lambda: getattr(ed, method)(SymName(x), None if absent else item))
        g.check(out)
        if not out.ok:
            c.cover('refused')
            return
        c.cover('accepted')
        c.prove(f'C17 {method}: accepts only defined names', w.has(x))
        if absent or not c.branch(w.has(x)):
            return
        old = w.accs.lookup(SymName(x))
        c.prove(f'C17 {method}: accepts only the same tree structure', item.td == old.td)
        c.prove(f'C17 {method}: accepts only the same number of leaves', item.n == old.n)
        if c.branch(z3.And(w.k >= 0, w.k < old.n, w.k < item.n)):
            a, b = old.leaf(w.k), item.leaf(w.k)
            c.prove(f'C17 {method}: accepts only the same leaf shapes', same_shape(b.sshape, a.sshape))
            c.prove(f'C17 {method}: accepts only the same leaf dtypes', b.dtype.z == a.dtype.z)
    return valid, any_


for _m in ('set_accumulator', 'set_defaults', 'set_updates'):
    _v, _a = tree_setter(_m)
    _f = f'{EDT}{_m} {EDT}_execute_validation {EDT}_validate_accumulator_exists {EDT}_validate_same_pytree_structure {EDT}_validate_pytree_leaves {UT}are_pytree_structure_equal'
    spec(f'{_m}', 'C11 C17 C18 C27', _f, covers=['standard', 'silence'])(_v)
    spec(f'{_m} on anything', 'C11 C17', _f, covers=['accepted', 'refused'])(_a)


@spec('opening and closing an editor', 'C11 C18 C27', f'{EDT}edit_controller {EDT}edit_save {EDT}build {EDT}save {EDT}__init__ src/jax_act/core/controller.py:ACT_Controller.load',
      covers=['opened', 'refused'])
def open_close(c):
    from src.jax_act.core.tensoreditor import TensorEditor
    from src.jax_act.core.controller import ACT_Controller
    w = World(c, pending='any')
    save = c.choose(2) == 1
    mode = (None, 'standard', 'silence', 'bogus', '')[c.choose(5)]
    ct = controller(w)
    g = Guard(c, ct, 'opening an editor')
    kw = {} if mode is None else {'error_mode': mode}
    out = attempt(lambda: TensorEditor.edit_save(ct.state, **kw) if save else TensorEditor.edit_controller(ct, **kw))
    g.check(out)
    known = mode in (None, 'standard', 'silence')
    c.holds('C18 edit_controller, edit_save: refused exactly for an unknown error mode', out.ok == known, repr(out.error) if out.error else 'accepted')
    if not out.ok:
        c.cover('refused')
        return
    c.cover('opened')
    ed = out.value
    c.holds('C18 edit_controller, edit_save: an editor in that mode', isinstance(ed, TensorEditor) and ed.error_mode == (mode or 'standard'), repr(getattr(ed, 'error_mode', None)))
    same_state_but(c, 'C18 edit_controller, edit_save', ct.state, ed.state, FIELDS)
    g2 = Guard(c, ed, 'closing an editor')
    for f, label in ((ed.build, 'build'), (ed.save, 'save')):
        o = attempt(f)
        c.holds(f'C18 {label}: succeeds', o.ok, repr(o.error))
        if o.ok:
            s = o.value if label == 'save' else o.value.state
            if label == 'build':
                c.holds('C18 build: a controller', isinstance(o.value, ACT_Controller), type(o.value).__name__)
            same_state_but(c, f'C18 {label}', ed.state, s, FIELDS)
        g2.check(o)
    for f in ('probabilities', 'residuals', 'iterations', 'accumulators', 'defaults', 'updates', 'epsilon'):
        o = attempt(lambda: getattr(ed, f))
        c.holds(f'C18 editor.{f} is the field', o.ok and o.value is getattr(ed.state, f), 'another value')


# --------------------------------------------------------------------------- flattening
FLAT = {'state': ('src/jax_act/core/states.py:state_flatten', 'src/jax_act/core/states.py:state_unflatten'),
        'controller': ('src/jax_act/core/controller.py:flatten_controller', 'src/jax_act/core/controller.py:unflatten_controller'),
        'viewer': ('src/jax_act/core/viewer.py:flatten_viewer', 'src/jax_act/core/viewer.py:unflatten_viewer'),
        'builder': ('src/jax_act/core/builder.py:flatten_builder', 'src/jax_act/core/builder.py:unflatten_builder'),
        'editor': ('src/jax_act/core/tensoreditor.py:flatten_editor', 'src/jax_act/core/tensoreditor.py:unflatten_editor')}


def obj_of(kind, w, c):
    if kind == 'state':
        return w.state()
    if kind == 'controller':
        return controller(w)
    if kind == 'viewer':
        return viewer(w)
    if kind == 'builder':
        return builder(w)
    return editor(w, ('standard', 'silence')[c.choose(2)])


def same_value(c, name, a, b):
    a, b = [x.vc_resolve() if isinstance(x, V.Maybe) else x for x in (a, b)]
    if a is b:
        c.holds(name, True)
    elif isinstance(a, SymTensor) and isinstance(b, SymTensor):
        equal_tensor(c, name, a, b)
    elif isinstance(a, V.SymInt) and isinstance(b, V.SymInt):
        c.prove(name, a.z == b.z)
    else:
        c.holds(name, type(a) is type(b) and isinstance(a, (str, int, float)) and a == b, f'{b!r} instead of {a!r}')


def round_trip(kind):
    def f(c):
        w = World(c, pending='any', updates='any', same_dtype=False)
        sort = c.choose(3)
        w.assume_focus() if sort == 0 else w.assume_bare(sort == 2)
        o = obj_of(kind, w, c)
        g = Guard(c, o, f'flattening a {kind}') if kind != 'state' else None
        tu = fakes.tree_util
        fl = attempt(lambda: tu.tree_flatten(o))
        c.holds(f'C15 {kind}: can be flattened', fl.ok, repr(fl.error))
        if not fl.ok:
            return
        leaves, td = fl.value
        out = attempt(lambda: tu.tree_unflatten(td, leaves))
        c.holds(f'C15 {kind}: can be rebuilt', out.ok, repr(out.error))
        if g:
            g.check(out)
        if not out.ok:
            return
        c.cover('rebuilt')
        r = out.value
        c.holds(f'C15 {kind}: same class', type(r) is type(o), type(r).__name__)
        if type(r) is not type(o):
            return
        if kind == 'editor':
            c.holds('C15 editor: error mode', r.error_mode == o.error_mode, repr(r.error_mode))
        s, t = (o, r) if kind == 'state' else (o.state, r.state)
        for f_ in FIELDS:
            if f_ in DICTS:
                entry_kept(c, f'C15 {kind}: {f_}', getattr(s, f_), getattr(t, f_), w.n)
            else:
                same_value(c, f'C15 {kind}: {f_}', getattr(s, f_), getattr(t, f_))

        # mapping a function
        def image(x):
            if not isinstance(x, SymTensor):
                return x
            y = tensor(c.name('image'), x.sshape, x.dtype)
            y.src = x
            return y
        out = attempt(lambda: tu.tree_map(image, o))
        c.holds(f'C15 {kind}: a function can be mapped', out.ok, repr(out.error))
        if not out.ok:
            return
        c.cover('mapped')
        t = out.value if kind == 'state' else out.value.state
        for f_ in FIELDS:
            a, b = getattr(s, f_), getattr(t, f_)
            name = f'C15 {kind}: the function reaches {f_} in its place'
            if f_ not in DICTS:
                c.holds(name, b is not a and getattr(b, 'src', None) is a if isinstance(a, SymTensor) else bool(a == b), repr(b))
                continue
            c.prove(name + ' (name)', b.has(SymName(w.n)) == w.has(w.n))
            if sort == 1:
                continue
            x, y = a.lookup(SymName(w.n)), b.lookup(SymName(w.n))
            if x is None:
                c.holds(name, y is None, repr(y))
            elif not isinstance(y, SymTree):
                c.fail(name, type(y).__name__)
            else:
                c.prove(name + ' (structure)', y.td == x.td)
                if c.branch(z3.And(w.k >= 0, w.k < x.n)):
                    c.holds(name, y.leaf(w.k) is not x.leaf(w.k) and getattr(y.leaf(w.k), 'src', None) is x.leaf(w.k), 'another leaf')
    return f


for _k, _fs in FLAT.items():
    spec(f'flattening a {_k}', 'C11 C15 C27', ' '.join(_fs + FLAT['state']), covers=['rebuilt', 'mapped'])(round_trip(_k))


@spec('flattening the loop metadata', 'C15 C27', 'src/jax_act/layers/act.py:state_flatten src/jax_act/layers/act.py:state_unflatten src/jax_act/layers/act.py:ACTMetaData.increase_counter',
      covers=['done'])
def metadata(c):
    from src.jax_act.layers.act import ACTMetaData
    V.dtype_axioms(c)
    tu = fakes.tree_util
    kind = c.choose(4)               # inside of a compiled loop the counters are tensors, outside any of them may be an integer
    a, b = [V.SymInt(z3.Int(n)) if kind & b else scalar(z3.Real(n)) for n, b in (('num', 1), ('max', 2))]
    m = ACTMetaData(num_iterations=a, max_num_iterations=b)
    fl = attempt(lambda: tu.tree_flatten(m))
    c.holds('C15 metadata: can be flattened', fl.ok, repr(fl.error))
    if not fl.ok:
        return
    out = attempt(lambda: tu.tree_unflatten(fl.value[1], fl.value[0]))
    c.holds('C15 metadata: can be rebuilt', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('done')
    r = out.value
    c.holds('C15 metadata: same class', type(r) is ACTMetaData, type(r).__name__)
    same_value(c, 'C15 metadata: num_iterations', a, r.num_iterations)
    same_value(c, 'C15 metadata: max_num_iterations', b, r.max_num_iterations)


def _node():
    """A registered dataclass node, as a user would define one."""
    import dataclasses

    @dataclasses.dataclass
    class Node:
        x: object
        y: object
    fakes.tree_util.register_pytree_node(Node, lambda n: ((n.x, n.y), None), lambda aux, ch: Node(*ch))
    return Node


@spec('flattening a state that holds dataclass nodes', 'C15', 'src/jax_act/core/states.py:state_flatten src/jax_act/core/states.py:state_unflatten', covers=['rebuilt'])
def round_trip_nodes(c):
    from src.jax_act.core.states import ACTStates
    w = World(c, pending='none')
    Node = _node()
    tu = fakes.tree_util
    t = [tensor(f'leaf{i}', w.B, w.D) for i in range(6)]
    nodes = [Node(t[2 * i], t[2 * i + 1]) for i in range(3)]
    d = lambda v: SymDict() if v is None else {'a': v}
    s = ACTStates(epsilon=w.eps_v, iterations=w.I, residuals=w.R, probabilities=w.P, defaults={'a': nodes[0]}, accumulators={'a': nodes[1]},
                  updates={'a': nodes[2] if c.choose(2) else None}, depression_constant=w.dep_v, error_mode=None)
    out = attempt(lambda: tu.tree_unflatten(*reversed(tu.tree_flatten(s))))
    c.holds('C15 nodes: can be flattened and rebuilt', out.ok, repr(out.error))
    if not out.ok:
        return
    c.cover('rebuilt')
    for f in DICTS:
        a, b = getattr(s, f), getattr(out.value, f)
        got = b['a'] if not isinstance(b, SymDict) else b.lookup('a')
        if a['a'] is None:
            c.holds(f'C15 nodes: absent {f}', got is None, repr(got))
            continue
        c.holds(f'C15 nodes: class of a node of {f}', type(got) is Node, type(got).__name__)
        if type(got) is Node:
            for x in ('x', 'y'):
                c.holds(f'C15 nodes: {x} of a node of {f}', getattr(got, x) is getattr(a['a'], x), 'another leaf')


# ------------------------------------------------------------------ assigning to attributes
@spec('assigning to an attribute', 'C11', 'src/jax_act/core/immutable.py:Immutable.__setattr__ src/jax_act/core/immutable.py:Immutable.make_immutable', covers=['refused', 'flag'])
def assigning(c):
    w = World(c, pending='any')
    kind = ('controller', 'viewer', 'builder', 'editor')[c.choose(4)]
    o = obj_of(kind, w, c)
    way = c.choose(3)
    if way == 1:                                             # as it comes out of a transformation
        fl = attempt(lambda: fakes.tree_util.tree_flatten(o))
        out = attempt(lambda: fakes.tree_util.tree_unflatten(fl.value[1], fl.value[0])) if fl.ok else fl
    elif way == 2:                                           # as a method returns it
        if kind in ('viewer', 'builder'):
            return
        out = attempt(lambda: o.cache_update('name', None) if kind == 'controller' else o.set_epsilon(0.25))
    else:
        out = attempt(lambda: o)
    if not out.ok or type(out.value) is not type(o):
        return
    o = out.value
    before, attrs = len(c.events), dict(vars(o))
    key = SymName(z3.Const('attribute', NameS))
    out = attempt(lambda: type(o).__setattr__(o, key, object()))
    flag = c.branch(key.z == V.name_term('_is_immutable'))
    if flag:
        c.cover('flag')
        return
    c.cover('refused' if not out.ok else 'accepted')
    c.holds(f'C11 assigning to an attribute of a {kind}: raises AttributeError', not out.ok and isinstance(out.error, AttributeError), repr(out.error) if out.error else 'it does not')
    now = vars(o)
    c.holds(f'C11 assigning to an attribute of a {kind}: changes nothing', not any(e[0] == 'attribute' for e in c.events[before:]) and
            len(now) == len(attrs) and all(now.get(k) is v for k, v in attrs.items()), 'the attribute is set')


# ----------------------------------------------------------------------------------- C29
def checked_setter(method):
    """A setter of a standard-mode editor inside a checked compiled function: the checks are recorded, and raised at the end."""
    field = {'set_probabilities': 'probabilities', 'set_residuals': 'residuals', 'set_iterations': 'iterations', 'set_epsilon': 'epsilon'}[method]

    def run(c):
        from src.jax_act.core import utils
        w = World(c, pending='none')
        v = scalar(z3.Const('new_epsilon', Num.sort()), True, traced=True) if field == 'epsilon' else tensor('value', w.B, w.D)
        ed = editor(w, 'standard')
        out = attempt(lambda: utils.jit_and_checkify(lambda x: getattr(getattr(ed, method)(x).build().state, field))(v))
        if field == 'epsilon':
            x = v.elem(())
            good = c.branch(z3.And(w.le(Num.const(0), x), w.le(x, Num.const(1))))
            c.holds(f'C29 {method}: checked code accepts exactly what eager code accepts', out.ok == good, repr(out.error) if out.error else 'accepted')
        elif out.ok:
            if c.branch(V.nonempty_of(w.B)):
                x = v.elem(focus_index(w.B))
                c.prove(f'C29 {method}: checked code accepts only entries that are not negative', w.le(Num.const(0), x))
                if field != 'iterations':
                    c.prove(f'C29 {method}: checked code accepts only entries that are at most one', w.le(x, Num.const(1)))
        if out.ok:
            c.cover('accepted')
            c.holds(f'C29 {method}: the output is the given value', out.value is v, repr(out.value))
        else:
            c.cover('refused')
            c.holds(f'C29 {method}: the error is that of a check', isinstance(out.error, fakes.JaxRuntimeError), repr(out.error))

    def valid(c):
        from src.jax_act.core import utils
        w = World(c, pending='none')
        le = w.le
        rng = (lambda v: z3.And(le(Num.const(0), v), le(v, Num.const(1)))) if field != 'iterations' else (lambda v: le(Num.const(0), v))
        v = tensor('value', w.B, w.D, fact=rng)
        ed = editor(w, 'standard')
        out = attempt(lambda: utils.jit_and_checkify(lambda x: getattr(getattr(ed, method)(x).build().state, field))(v))
        c.cover('accepted')
        c.holds(f'C29 {method}: a valid value is accepted by checked code', out.ok, repr(out.error))
    return run, valid


for _m in ('set_probabilities', 'set_residuals', 'set_iterations', 'set_epsilon'):
    _r, _v = checked_setter(_m)
    _f = f'src/jax_act/core/utils.py:jit_and_checkify {EDT}{_m} {EDT}_execute_validation'
    spec(f'{_m} in a checked compiled function', 'C29', _f, covers=['accepted', 'refused'])(_r)
    if _m != 'set_epsilon':
        spec(f'{_m} of a valid value in a checked compiled function', 'C29', _f, covers=['accepted'])(_v)
