"""Contracts of the utilities: broadcasting helpers, tree merge and comparison, tree broadcasting."""
import z3
import values as V, fakes
from core import PathEnd, Unsupported
from registry import spec
from world import *
from specs_core import trace_safe, same_tree
from specs_act import Thing

UT = 'src/jax_act/core/utils.py:'


def utils():
    from src.jax_act.core import utils as u
    return u


# ----------------------------------------------------------------------------------- C21
@spec('setup_left_broadcast', 'C21', f'{UT}setup_left_broadcast', covers=['same rank', 'expanded', 'scalar', 'refused'])
def left(c):
    V.dtype_axioms(c)
    t = tensor('t', any_shape('T', True), dtype('t', False))
    g = tensor('g', any_shape('G', True), dtype('g', False))
    rt, rg = t.sshape.rank(), g.sshape.rank()
    out = attempt(lambda: utils().setup_left_broadcast(t, g))
    if not t.sshape.items:
        c.cover('scalar')
        c.holds('C21 setup_left_broadcast: a scalar is left alone', out.ok, repr(out.error))
        if out.ok:
            equal_tensor(c, 'C21 setup_left_broadcast: a scalar is left alone', t, out.value)
        return
    if not out.ok:
        c.cover('refused')
        c.prove('C21 setup_left_broadcast: refuses only a tensor of higher rank', rt > rg)
        return
    c.prove('C21 setup_left_broadcast: a tensor of higher rank is refused', rt <= rg)
    if not c.provable(rt <= rg):
        return
    c.cover('same rank' if c.branch(rt == rg) else 'expanded')
    want = SymTuple(t.sshape.norm() + [('rep', 1, z3.simplify(rg - rt))])
    r = out.value
    if not isinstance(r, SymTensor):
        c.fail('C21 setup_left_broadcast: shape', type(r).__name__)
        return
    c.prove('C21 setup_left_broadcast: shape', same_shape(r.sshape, want))
    if c.provable(same_shape(r.sshape, want)):
        c.prove('C21 setup_left_broadcast: content and dtype', z3.And(r.elem(focus_index(r.sshape)) == t.elem(focus_index(t.sshape)), r.dtype.z == t.dtype.z))
    trace_safe(c, 'setup_left_broadcast')


@spec('can_right_broadcast', 'C21', f'{UT}can_right_broadcast', covers=['yes', 'no'])
def right(c):
    V.dtype_axioms(c)
    a = tensor('a', any_shape('A'), dtype('a', False))
    b = tensor('b', any_shape('Bs'), dtype('b', False))
    k = z3.Int('k')
    ra, rb = a.sshape.rank(), b.sshape.rank()
    ov = z3.If(ra <= rb, ra, rb)
    c.focus_leaf = [k, z3.simplify(ov - 1 - k)]       # the arbitrary dimension, counted from either end
    out = attempt(lambda: bool(utils().can_right_broadcast(a, b)))
    c.holds('C21 can_right_broadcast: answers', out.ok, repr(out.error))
    if not out.ok:
        return

    def fits(j):
        """The j-th of the overlapping dimensions."""
        x, y = dim_at(a.sshape, ra - ov + j), dim_at(b.sshape, rb - ov + j)
        return z3.Or(x == 1, y == 1, x == y)
    scalar_ = not a.sshape.items or not b.sshape.items
    if out.value:
        c.cover('yes')
        if not scalar_:
            c.prove('C21 can_right_broadcast: true only if numpy can broadcast', z3.Implies(z3.And(k >= 0, k < ov), fits(k)))
    else:
        c.cover('no')
        js = [] if scalar_ else [j for p in c.positions + c.focus_leaf for j in (p, ov - 1 - p)]
        c.prove('C21 can_right_broadcast: false only if numpy cannot broadcast',
                z3.Or(*[z3.And(j >= 0, j < ov, z3.Not(fits(j))) for j in js]) if js else z3.BoolVal(False))


# ----------------------------------------------------------------------------------- C24
class Leaf:
    """A leaf of which nothing is known."""
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return self.label


def one_tree(c, label, make):
    if ('tree', label) not in c.cache:
        c.cache['tree', label] = V.origin(make(), label)
    return c.cache['tree', label]


def opaque_tree(c, label, td=None):
    label = V.alias_of(label)
    td = z3.Const('structure:' + label, TDS) if td is None else td
    return one_tree(c, label, lambda: SymTree(td, lambda k: Leaf(f'{label}[{k}]'), label))


@spec('merge_pytrees', 'C24', f'{UT}merge_pytrees', covers=['merged', 'no leaves'])
def merge(c):
    a, b = opaque_tree(c, 'first'), opaque_tree(c, 'second')
    k = z3.Int('k')
    c.focus_leaf = [k]
    c.assume(a.n == b.n)
    calls = []

    def function(x, y):
        r = Leaf('result')
        calls.append((x, y, r))
        return r
    out = attempt(lambda: utils().merge_pytrees(function, a, b))
    c.holds('C24 merge_pytrees: trees with equally many leaves are merged', out.ok, repr(out.error))
    if not out.ok:
        return
    r = out.value
    if not isinstance(r, SymTree):
        c.fail('C24 merge_pytrees: structure of the first tree', type(r).__name__)
        return
    c.prove('C24 merge_pytrees: structure of the first tree', r.td == a.td)
    if not c.branch(z3.And(k >= 0, k < a.n)):
        c.cover('no leaves')
        return
    c.cover('merged')
    x, y = a.leaf(k), b.leaf(k)
    mine = [e for e in calls if e[0] is x or e[1] is y or e[0] is y or e[1] is x]
    c.holds('C24 merge_pytrees: called once per pair, first tree first', len(mine) == 1 and mine[0][0] is x and mine[0][1] is y, str(mine))
    if len(mine) == 1:
        c.holds('C24 merge_pytrees: the result takes its place', r.leaf(k) is mine[0][2], 'another value')


@spec('merge_pytrees, different numbers of leaves', 'C24', f'{UT}merge_pytrees', covers=['refused'])
def merge_bad(c):
    a, b = opaque_tree(c, 'first'), opaque_tree(c, 'second')
    c.focus_leaf = [z3.Int('k')]
    c.assume(a.n != b.n)
    out = attempt(lambda: utils().merge_pytrees(lambda x, y: Leaf('result'), a, b))
    c.holds('C24 merge_pytrees: trees with different numbers of leaves are refused', not out.ok, 'accepted')
    if not out.ok:
        c.cover('refused')


@spec('are_pytree_structure_equal', 'C24', f'{UT}are_pytree_structure_equal', covers=['equal', 'different'])
def structure(c):
    a, b = opaque_tree(c, 'first'), opaque_tree(c, 'second')
    k = z3.Int('k')
    c.focus_leaf = [k]
    c.assume(z3.Implies(a.td == b.td, a.n == b.n))
    out = attempt(lambda: bool(utils().are_pytree_structure_equal(a, b)))
    c.holds('C24 are_pytree_structure_equal: answers', out.ok, repr(out.error))
    if out.ok:
        c.cover('equal' if out.value else 'different')
        # an absent leaf counts like any other leaf, so structures are compared with every leaf absent
        from fakes import F_blank
        for t in (a, b):                                     # blanking a structure without leaves changes nothing
            c.assume(z3.Implies(t.n <= 0, F_blank(t.td) == t.td))
        same = F_blank(a.td) == F_blank(b.td)
        c.prove('C24 are_pytree_structure_equal: true exactly for structures equal up to their leaves', same == z3.BoolVal(out.value))
        c.prove('C24 are_pytree_structure_equal: true for equal structures', z3.Implies(a.td == b.td, z3.BoolVal(out.value)))


class KindA:
    pass


class KindB:
    pass


class AnyValue(V.Opaque):
    """A leaf that is no array; of one type or another, and values of different types may well compare equal."""
    def __init__(self, z, label):
        self.z, self.is_a = z, z3.Bool('type of ' + label)

    def vc_type(self):
        return KindA if ctx().branch(self.is_a) else KindB

    def vc_isinstance(self, t):
        return t in (KindA, KindB) and t is self.vc_type()

    def __eq__(self, o):
        return V.SymBool(self.z == o.z) if isinstance(o, AnyValue) else False

    def __ne__(self, o):
        return V.SymBool(self.z != o.z) if isinstance(o, AnyValue) else True
    __hash__ = object.__hash__


class NpTensor(SymTensor):
    """A numpy array."""
    def vc_type(self):
        return fakes.NpArray

    def vc_isinstance(self, t):
        return t is fakes.NpArray


def mixed_tree(c, label):
    ValS = z3.DeclareSort('Value')
    label = V.alias_of(label)

    def leaf(k):
        key = ('mixed', label, k.sexpr())
        if key not in c.cache:
            kind = c.choose(3)
            if kind < 2:
                t = tensor(f'{label}:{k.sexpr()}', any_shape(f'shape:{label}:{k.sexpr()}'), dtype(f'{label}:{k.sexpr()}'))
                if kind == 1:
                    t = NpTensor(t.sshape, t._elem, t.dtype)
                c.cache[key] = t
            else:
                c.cache[key] = AnyValue(z3.Const(f'{label}:{k.sexpr()}:value', ValS), f'{label}:{k.sexpr()}')
        return c.cache[key]
    return one_tree(c, label, lambda: SymTree(z3.Const('structure:' + label, TDS), leaf, label))


def leaf_equal(c, x, y, close):
    """Whether two leaves count as equal, as a term; None when their kinds differ."""
    kind = lambda v: v.vc_type() if hasattr(type(v), 'vc_type') else SymTensor
    if kind(x) is not kind(y):
        return z3.BoolVal(False)
    if isinstance(x, AnyValue):
        return (x == y).z
    sh = same_shape(x.sshape, y.sshape)
    if not c.branch(sh):
        return z3.BoolVal(False)
    V.unify(x.sshape, y.sshape)
    p = fakes.isclose(x, y) if close else fakes.binop('eq', x, y)
    return fakes.as_t(fakes.all_(p)).elem(())


def equal_spec(close):
    def f(c):
        V.dtype_axioms(c)
        c.opaque_near = Num.fp()
        a, b = mixed_tree(c, 'first'), mixed_tree(c, 'second')
        k = z3.Int('k')
        c.focus_leaf = [k]
        scout(c)
        c.assume(z3.Implies(a.td == b.td, a.n == b.n))
        out = attempt(lambda: bool(utils().are_pytrees_equal(a, b, use_allclose=close)))
        c.holds('C24 are_pytrees_equal: answers', out.ok, repr(out.error))
        if not out.ok:
            return
        if out.value:
            c.cover('equal')
            c.prove('C24 are_pytrees_equal: true only for equal structures', a.td == b.td)
            if c.branch(z3.And(k >= 0, k < a.n)):
                c.prove('C24 are_pytrees_equal: true only for equal leaves', leaf_equal(c, a.leaf(k), b.leaf(k), close))
        else:
            c.cover('different')
            if c.branch(a.td != b.td):
                return
            ok = z3.BoolVal(False)
            for j in c.positions + c.focus_leaf:
                if c.provable(z3.And(j >= 0, j < a.n)):
                    ok = z3.Or(ok, z3.Not(leaf_equal(c, a.leaf(j), b.leaf(j), close)))
            c.prove('C24 are_pytrees_equal: false only if a leaf or the structure differs', ok)
    return f


spec('are_pytrees_equal, nearly', 'C24', f'{UT}are_pytrees_equal', covers=['equal', 'different'])(equal_spec(True))
spec('are_pytrees_equal, exactly', 'C24', f'{UT}are_pytrees_equal', covers=['equal', 'different'])(equal_spec(False))
spec('are_pytrees_equal, nearly, IEEE contents', 'C24', f'{UT}are_pytrees_equal', covers=['equal', 'different'], mode='fp')(equal_spec(True))
spec('are_pytrees_equal, exactly, IEEE contents', 'C24', f'{UT}are_pytrees_equal', covers=['equal', 'different'], mode='fp')(equal_spec(False))


# ----------------------------------------------------------------------------------- C19
# prefix(s, t): structure s can be broadcast to t; source(s, t, j): the leaf of s at or above leaf j of t.  Both are defined
# by recursion over the structures; the defining equations are instantiated at the nodes and children a proof looks at.
P_prefix = z3.Function('is_prefix', TDS, TDS, z3.BoolSort())
P_src = z3.Function('leaf_above', TDS, TDS, z3.IntSort(), z3.IntSort())
ElemS = z3.DeclareSort('Element')


class Elem(V.Opaque):
    """An element of the queue of source leaves."""
    def __init__(self, z):
        self.z = z

    def vc_same(self, o):
        return isinstance(o, Elem) and ctx().provable(self.z == o.z)


def defines_prefix(c, s, t, at):
    """The definition of prefix at (s, t), its universal part instantiated at the given children."""
    V.td_facts(s), V.td_facts(t)
    i = z3.Int('child that differs')
    data = z3.Implies(z3.And(z3.Not(V.T_keyed(V.T_cls(s))), V.T_custom(V.T_cls(s))), V.T_data(s) == V.T_data(t))
    each = lambda w: z3.And(V.same_node_data(s, t, w), P_prefix(V.child(s, w), V.child(t, w)))
    alike = z3.And(z3.Not(V.T_leaf(t)), V.T_cls(s) == V.T_cls(t), V.T_m(s) == V.T_m(t), data)
    p = P_prefix(s, t)
    c.add(z3.Implies(V.T_leaf(s), p))
    c.add(z3.Implies(z3.And(z3.Not(V.T_leaf(s)), p), alike))
    for w in at:
        c.add(z3.Implies(z3.And(z3.Not(V.T_leaf(s)), p, w >= 0, w < V.T_m(s)), each(w)))
    c.add(z3.Implies(z3.And(z3.Not(V.T_leaf(s)), alike, z3.Not(p)), z3.And(i >= 0, i < V.T_m(s), z3.Not(each(i)))))
    # nothing else tells empty containers apart
    c.add(z3.Implies(z3.And(z3.Not(V.T_leaf(s)), V.T_m(s) == 0), (s == t) == z3.And(alike)))
    return i


def same_def(td):
    return isinstance(td, SymTreedef) and td.skel[0] == 'sym'


def is_child(c, td, of):
    """Whether td is a child of the given node, syntactically."""
    z = td.skel[1]
    return z.decl().eq(V.T_child) and z.arg(0).eq(of) and c.provable(z3.And(z.arg(1) >= 0, z.arg(1) < V.T_m(of)))


@spec('_count_linked_leaves', 'C19', f'{UT}_count_linked_leaves {UT}_is_empty_collection', covers=['counted'])
def count(c):
    td = z3.Const('structure', TDS)
    V.td_facts(td)
    u = utils()
    real = u._count_linked_leaves

    def stub(x):
        c.holds('C19 _count_linked_leaves: descends to a child', same_def(x) and is_child(c, x, td), str(x))
        return V.mkint(F_nleaves(x.skel[1]))
    u._count_linked_leaves = stub
    try:
        out = attempt(lambda: real(SymTreedef(('sym', td))))
    finally:
        u._count_linked_leaves = real
    c.holds('C19 _count_linked_leaves: answers', out.ok, repr(out.error))
    if out.ok:
        c.cover('counted')
        c.prove('C19 _count_linked_leaves: the number of leaves', V.int_term(out.value) == F_nleaves(td))


@spec('_replicate_leaves', 'C19', f'{UT}_replicate_leaves {UT}_validate_children_descent {UT}_repeat_node', covers=['prefix', 'refused', 'leaf', 'branch'])
def replicate(c):
    s, t = z3.Const('structure:source', TDS), z3.Const('structure:target', TDS)
    V.td_facts(s), V.td_facts(t)
    n = z3.Int('queue length')
    c.assume(n >= F_nleaves(s))
    el = z3.Function('queue', z3.IntSort(), ElemS)
    queue = SymList([('g', Group(n, lambda i: Elem(el(i)), 'queue'))])
    j, ij = z3.Int('j'), z3.Int('child above j')
    i = defines_prefix(c, s, t, [])
    c.focus_leaf = [i, ij]
    # the child that holds leaf j
    c.assume(z3.And(j >= 0, j < F_nleaves(t)) if c.choose(2) == 0 else j == -1)
    V.child(t, ij), V.child(s, ij)
    c.assume(z3.Implies(z3.And(j >= 0, z3.Not(V.T_leaf(t))), z3.And(ij >= 0, ij < V.T_m(t), V.T_off(t, ij) <= j, j < V.T_off(t, ij) + F_nleaves(V.child(t, ij)))))
    u = utils()
    real_r, real_c = u._replicate_leaves, u._count_linked_leaves

    def stub_c(x):
        c.holds('C19 _replicate_leaves: counts the leaves of the target', same_def(x) and x.skel[1].eq(t), str(x))
        return V.mkint(F_nleaves(t))

    def stub_r(x, y, q, message):
        c.holds('C19 _replicate_leaves: descends to children', same_def(x) and same_def(y) and is_child(c, x, s) and is_child(c, y, t), f'{x} {y}')
        if not isinstance(q, SymList):
            raise Unsupported('a queue that is no list')
        x, y = x.skel[1], y.skel[1]
        c.prove('C19 _replicate_leaves: hands on enough leaves', rtl.total(q.segs) >= F_nleaves(x))
        if not c.branch(P_prefix(x, y)):
            raise RuntimeError('not a prefix')
        q = SymList(list(q.segs))

        def get(k):
            w = P_src(x, y, z3.simplify(k))
            c.add(z3.Implies(z3.And(k >= 0, k < F_nleaves(y)), z3.And(w >= 0, w < F_nleaves(x))))
            return q.at(w)
        return SymList([('g', Group(F_nleaves(y), get, 'replicated'))]), SymList(rtl.cut(q.segs, F_nleaves(x)))
    u._replicate_leaves, u._count_linked_leaves = stub_r, stub_c
    try:
        out = attempt(lambda: real_r(SymTreedef(('sym', s)), SymTreedef(('sym', t)), queue, 'context'))
    finally:
        u._replicate_leaves, u._count_linked_leaves = real_r, real_c
    defines_prefix(c, s, t, [i, ij] + c.positions)
    p = P_prefix(s, t)
    if not out.ok:
        c.cover('refused')
        c.holds('C19 _replicate_leaves: refuses with RuntimeError', isinstance(out.error, RuntimeError), repr(out.error))
        c.prove('C19 _replicate_leaves: refuses only what is no prefix', z3.Not(p))
        return
    c.prove('C19 _replicate_leaves: what is no prefix is refused', p)
    if not c.provable(p):
        return
    c.cover('prefix')
    r = out.value
    if not (isinstance(r, (tuple, SymTuple)) and len(r) == 2 and all(isinstance(x, (SymList, list)) for x in r)):
        c.fail('C19 _replicate_leaves: two lists', str(r))
        return
    leaves, rest = [x if isinstance(x, SymList) else SymList([('i', v) for v in x]) for x in r]
    c.prove('C19 _replicate_leaves: one leaf per leaf of the target', rtl.total(leaves.segs) == F_nleaves(t))
    c.prove('C19 _replicate_leaves: takes the leaves of the source from the queue', rtl.total(rest.segs) == n - F_nleaves(s))
    m = z3.Int('m')
    if c.branch(z3.And(m >= 0, m < n - F_nleaves(s))):
        e = rest.at(m)
        c.prove('C19 _replicate_leaves: the rest of the queue is left in order', e.z == el(m + F_nleaves(s)) if isinstance(e, Elem) else z3.BoolVal(False))
    # the definition of the leaf above j
    cs, ct = V.child(s, ij), V.child(t, ij)
    k = z3.simplify(j - V.T_off(t, ij))
    c.add(z3.Implies(V.T_leaf(s), P_src(s, t, j) == 0))
    c.add(z3.Implies(z3.Not(V.T_leaf(s)), P_src(s, t, j) == V.T_off(s, ij) + P_src(cs, ct, k)))
    if c.branch(j >= 0):
        c.cover('leaf' if c.branch(V.T_leaf(s)) else 'branch')
        e = leaves.at(j)
        w = P_src(s, t, j)
        c.prove('C19 _replicate_leaves: each leaf is the source leaf at or above its position', z3.And(w >= 0, w < F_nleaves(s), e.z == el(w)) if isinstance(e, Elem) else z3.BoolVal(False))


def broadcast_of(c, s, t, elem):
    """The leaves of a tree of structure s (elem gives them) laid out for a structure t that s is a prefix of."""
    def get(k):
        w = z3.simplify(P_src(s, t, z3.simplify(k)))
        c.add(z3.Implies(z3.And(k >= 0, k < F_nleaves(t)), z3.And(w >= 0, w < F_nleaves(s))))
        return elem(w)
    return get


@spec('broadcast_pytree_shape', 'C19 C20', f'{UT}broadcast_pytree_shape', covers=['broadcast', 'refused'])
def broadcast(c):
    s, t = z3.Const('structure:source', TDS), z3.Const('structure:target', TDS)
    V.td_facts(s), V.td_facts(t)
    el = z3.Function('source_leaf', z3.IntSort(), ElemS)
    a, b = SymTree(s, lambda k: Elem(el(z3.simplify(k))), 'source'), opaque_tree(c, 'target')
    j = z3.Int('j')
    c.focus_leaf = [j]
    u = utils()
    real = u._replicate_leaves

    def stub(x, y, q, message):
        c.holds('C19 broadcast_pytree_shape: compares the two structures', same_def(x) and same_def(y) and x.skel[1].eq(s) and y.skel[1].eq(t), f'{x} {y}')
        if not isinstance(q, SymList):
            raise Unsupported('a queue that is no list')
        q = SymList(list(q.segs))
        c.prove('C19 broadcast_pytree_shape: hands on the leaves of the source', rtl.total(q.segs) == F_nleaves(s))
        i = z3.Int('any leaf')
        if c.branch(z3.And(i >= 0, i < F_nleaves(s))):
            e = q.at(i)
            c.prove('C19 broadcast_pytree_shape: hands on the leaves of the source in order', e.z == el(i) if isinstance(e, Elem) else z3.BoolVal(False))
        if not c.branch(P_prefix(s, t)):
            raise RuntimeError('not a prefix')
        return SymList([('g', Group(F_nleaves(t), broadcast_of(c, s, t, q.at), 'replicated'))]), SymList(rtl.cut(q.segs, F_nleaves(s)))
    u._replicate_leaves = stub
    try:
        out = attempt(lambda: u.broadcast_pytree_shape(a, b))
    finally:
        u._replicate_leaves = real
    p = P_prefix(s, t)
    if not out.ok:
        c.cover('refused')
        c.holds('C19 broadcast_pytree_shape: refuses with RuntimeError', isinstance(out.error, RuntimeError), repr(out.error))
        c.prove('C19 broadcast_pytree_shape: refuses only what is no prefix', z3.Not(p))
        return
    c.prove('C19 broadcast_pytree_shape: what is no prefix is refused', p)
    if not c.provable(p):
        return
    c.cover('broadcast')
    r = out.value
    if not isinstance(r, SymTree):
        c.fail('C19 broadcast_pytree_shape: the structure of the target', type(r).__name__)
        return
    c.prove('C19 broadcast_pytree_shape: the structure of the target', r.td == t)
    if c.branch(z3.And(j >= 0, j < F_nleaves(t))):
        e = r.leaf(j)
        c.prove('C19 broadcast_pytree_shape: each leaf is the source leaf at or above its position',
                e.z == el(P_src(s, t, j)) if isinstance(e, Elem) else z3.BoolVal(False))


@spec('lemma: prefix both ways', 'C20', '')
def antisymmetric(c):
    """By induction over the structures: two structures that are prefixes of each other are equal, leaf by leaf."""
    s, t = z3.Const('s', TDS), z3.Const('t', TDS)
    j, i, d = z3.Int('j'), z3.Int('child above j'), z3.Int('children differ')
    V.td_facts(s), V.td_facts(t)
    for k in (i, d):
        V.child(s, k), V.child(t, k)
    defines_prefix(c, s, t, [i, d])
    defines_prefix(c, t, s, [i, d])
    c.assume(P_prefix(s, t))
    c.assume(P_prefix(t, s))
    # the hypothesis for the children, and what makes two structures equal
    for k in (i, d):
        a, b = V.child(s, k), V.child(t, k)
        n = z3.simplify(j - V.T_off(t, i))
        both = z3.And(k >= 0, k < V.T_m(s), P_prefix(a, b), P_prefix(b, a))
        c.add(z3.Implies(both, a == b))
        c.add(z3.Implies(z3.And(both, n >= 0, n < F_nleaves(b)), P_src(a, b, n) == n))
    keys = V.same_node_data(s, t, d)
    data = z3.Implies(z3.And(z3.Not(V.T_keyed(V.T_cls(s))), V.T_custom(V.T_cls(s))), V.T_data(s) == V.T_data(t))
    c.add(z3.Implies(z3.And(V.T_leaf(s), V.T_leaf(t)), s == t))
    c.add(z3.Implies(z3.And(z3.Not(V.T_leaf(s)), z3.Not(V.T_leaf(t)), V.T_cls(s) == V.T_cls(t), V.T_m(s) == V.T_m(t), data, s != t),
                     z3.And(d >= 0, d < V.T_m(s), z3.Not(z3.And(keys, V.child(s, d) == V.child(t, d))))))
    c.prove('C20 lemma: prefixes of each other are equal', s == t)
    c.assume(s == t)
    c.assume(z3.And(j >= 0, j < F_nleaves(t)))
    c.add(z3.Implies(z3.Not(V.T_leaf(t)), z3.And(i >= 0, i < V.T_m(t), V.T_off(t, i) <= j, j < V.T_off(t, i) + F_nleaves(V.child(t, i)))))
    c.add(z3.Implies(V.T_leaf(s), P_src(s, t, j) == 0))
    c.add(z3.Implies(z3.Not(V.T_leaf(s)), P_src(s, t, j) == V.T_off(s, i) + P_src(V.child(s, i), V.child(t, i), z3.simplify(j - V.T_off(t, i)))))
    c.prove('C20 lemma: and each leaf is its own', P_src(s, t, j) == j)


@spec('execute_binary_operator', 'C20', f'{UT}execute_binary_operator {UT}setup_left_broadcast',
      covers=['first broadcast', 'second broadcast', 'operator fails', 'incompatible', 'first aligned', 'second aligned', 'no leaves'])
def binary(c):
    V.dtype_axioms(c)
    ta, tb = z3.Const('structure:first', TDS), z3.Const('structure:second', TDS)
    V.td_facts(ta), V.td_facts(tb)

    def tree(td, label):
        def leaf(i):
            i = z3.simplify(i)
            n = f'{label}:{(k if c.provable(i == k) else i).sexpr()}'
            if n not in c.cache:
                c.cache[n] = tensor(n, any_shape('shape:' + n), dtype(n, False))
            return c.cache[n]
        return SymTree(td, leaf, label)
    a, b = tree(ta, 'first'), tree(tb, 'second')
    k = z3.Int('k')
    c.focus_leaf = [k]
    ab, ba = P_prefix(ta, tb), P_prefix(tb, ta)
    c.add(z3.Implies(z3.And(ab, ba), ta == tb))              # the lemma
    c.add(z3.Implies(z3.And(ab, ba, k >= 0, k < F_nleaves(ta)), z3.And(P_src(ta, tb, k) == k, P_src(tb, ta, k) == k)))
    first, second = c.branch(ab), c.branch(ba)
    inside = c.branch(z3.And(k >= 0, k < F_nleaves(tb if first else ta)))
    u = utils()
    real = u.broadcast_pytree_shape
    calls = []

    def stub(x, y):
        if not isinstance(x, SymTree) or not isinstance(y, SymTree):
            raise Unsupported('broadcasting something else')
        if not c.branch(P_prefix(x.td, y.td)):
            raise RuntimeError('not a prefix')
        return SymTree(y.td, broadcast_of(c, x.td, y.td, x.leaf), 'broadcast')

    failed = []

    def operator(x, y):
        if c.choose(2):
            failed.append(1)
            raise ArithmeticError('the operator fails')
        r = tensor(f'result#{len(calls)}', any_shape(f'shape:result#{len(calls)}'), dtype(f'result#{len(calls)}', False))
        calls.append((x, y, r))
        return r
    u.broadcast_pytree_shape = stub
    try:
        out = attempt(lambda: u.execute_binary_operator(operator, a, b, 'context'))
    finally:
        u.broadcast_pytree_shape = real
    if not out.ok:
        c.cover('operator fails' if failed else 'incompatible')
        c.holds('C20 execute_binary_operator: refuses with RuntimeError', isinstance(out.error, RuntimeError), repr(out.error))
        c.prove('C20 execute_binary_operator: refuses only incompatible trees and failing operators', z3.BoolVal(True) if failed else z3.Not(z3.Or(ab, ba)))
        return
    c.holds('C20 execute_binary_operator: a failing operator is reported', not failed, 'it is not')
    c.prove('C20 execute_binary_operator: incompatible trees are refused', z3.Or(ab, ba))
    if failed or not c.provable(z3.Or(ab, ba)):
        return
    r = out.value
    if not isinstance(r, SymTree):
        c.fail('C20 execute_binary_operator: the structure of the larger tree', type(r).__name__)
        return
    c.cover('first broadcast' if first else 'second broadcast')
    td = tb if first else ta
    c.prove('C20 execute_binary_operator: the structure of the larger tree', r.td == td)
    if not inside:
        c.cover('no leaves')
        return
    x = a.leaf(P_src(ta, tb, k) if first else k)
    y = b.leaf(k if first else P_src(tb, ta, k))
    z = r.leaf(k)
    mine = [e for e in calls if e[2] is z]
    name = 'C20 execute_binary_operator: each leaf is a result of the operator'
    if not mine and len(calls) == 1 and isinstance(z, SymTensor):
        mine, t = calls, calls[0][2]
        c.prove(name, z3.And(same_shape(z.sshape, t.sshape), z.dtype.z == t.dtype.z))
        ix = focus_index(t.sshape)
        c.prove(name, z.elem(ix) == t.elem(ix))
    else:
        c.holds(name, len(mine) == 1, f'{z}')
    if len(mine) != 1:
        return
    for which, got, want, o in (('first', mine[0][0], x, y), ('second', mine[0][1], y, x)):
        if not isinstance(got, SymTensor):
            c.fail(f'C20 execute_binary_operator: the {which} leaf goes in the {which} place', type(got).__name__)
            continue
        rw, ro = want.sshape.rank(), o.sshape.rank()
        shape = want.sshape
        if want.sshape.items and c.branch(ro > rw):
            c.cover(f'{which} aligned')
            shape = SymTuple(want.sshape.norm() + [('rep', 1, z3.simplify(ro - rw))])
        c.prove(f'C20 execute_binary_operator: the {which} leaf goes in the {which} place', got.elem(focus_index(got.sshape)) == want.elem(focus_index(want.sshape)))
        ok = same_shape(got.sshape, shape)
        if not want.sshape.items:                            # a scalar may also be given unit dimensions
            ok = z3.Or(ok, same_shape(got.sshape, SymTuple([('rep', 1, z3.simplify(ro))])))
        c.prove(f'C20 execute_binary_operator: the {which} leaf is left-aligned', ok)


# ----------------------------------------------------------------------------------- C29
@spec('jit_and_checkify', 'C29', f'{UT}jit_and_checkify', covers=['accepted', 'refused', 'second accepted', 'second refused', 'failing function'])
def checked(c):
    """Two calls in a row, each with checks of its own that hold or not, of a function that answers differently each time."""
    V.dtype_axioms(c)
    from jax.experimental import checkify
    seen, script, fail = [], [], c.choose(2)
    named = fail or c.choose(2)

    def function(*a, **k):
        seen.append((a, k))
        for p in script[-1][0]:
            checkify.check(p, 'a check')
        if fail and len(script) == 2:
            raise KeyError('of the function')
        return script[-1][1]
    wrapped = attempt(lambda: utils().jit_and_checkify(function))
    c.holds('C29 jit_and_checkify: wrapping a function succeeds', wrapped.ok, repr(wrapped.error))
    if not wrapped.ok:
        return
    x, y = (tensor(f'arg {j}', any_shape(f'shape:arg {j}'), dtype(f'arg {j}', False)) for j in range(2))
    for k in range(2):
        n = c.choose(3) if k else c.choose(2)
        checks = [z3.Bool(f'check {k} {j}') for j in range(n)]
        result = [Thing('output'), x, {'a': y}, None, ()][c.choose(5) if k and not fail else 0]
        script.append(([V.SymBool(z) for z in checks], result))
        seen.clear()
        out = attempt(lambda: wrapped.value(x, 7, key=y) if named else wrapped.value(x, 7))
        good = c.branch(z3.And(*checks)) if checks else True
        if fail and k:
            c.cover('failing function')
            c.holds('C29 jit_and_checkify: an exception of the function is passed on', not out.ok and isinstance(out.error, (KeyError, fakes.JaxRuntimeError)), repr(out.error))
            continue
        c.holds('C29 jit_and_checkify: the function gets the very arguments', bool(seen) and all(a == (x, 7) and list(b.items()) == ([('key', y)] if named else []) for a, b in seen), str(seen))
        c.holds('C29 jit_and_checkify: accepted exactly where all checks hold', out.ok == good, repr(out.error) if out.error else 'accepted')
        if out.ok:
            c.cover('second accepted' if k else 'accepted')
            same = out.value is result or isinstance(result, dict) and isinstance(out.value, dict) and list(out.value) == ['a'] and out.value['a'] is y
            c.holds('C29 jit_and_checkify: the output is that of the function', same, repr(out.value))
        else:
            c.cover('second refused' if k else 'refused')
            c.holds('C29 jit_and_checkify: the error is that of the check', isinstance(out.error, fakes.JaxRuntimeError), repr(out.error))
