import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug
from bugs2 import THREE, LAYER

BUGS = [
 bug('C01-leftover-residual', 'C01', [(CT, 'raw_residuals = 1 - self.probabilities', 'raw_residuals = jnp.maximum(1 - self.probabilities, self.residuals)')],
  THREE + '''
c = TensorEditor.edit_controller(ready()).set_probabilities(jnp.array([0.9, 0.0, 0.2])).set_residuals(jnp.array([0.5, 0.0, 0.0])).build()
c = c.iterate_act(jnp.array([0.8, 0.1, 0.1]))
assert bool(jnp.all(c.probabilities <= 1)), c.probabilities
''', 'an entry that is not halted and has a residual left from before (edited or loaded)', 'the remainder a halting entry takes is not less than its old residual, so the cumulative probability exceeds one'),
 bug('C07-broadcast-update', 'C07', [(CT, 'if accumulator_value.shape != update_value.shape:', 'if not utils.can_right_broadcast(accumulator_value, update_value):')],
  '''
c = ControllerBuilder.new_builder(3).define_accumulator_by_shape('a', [3, 2]).build().cache_update('a', jnp.ones([1, 2]))
assert raises(lambda: c.iterate_act(jnp.array([.5, .5, .5])), RuntimeError)
''', 'an update whose shape broadcasts onto the shape of the accumulator', 'updates of another shape are accepted when numpy can broadcast them'),
 bug('C09-trailing-match', 'C09', [(VW, '            broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n', '            broadcastable_mask = mask\n            if tensor.shape[-mask.ndim:] != mask.shape:\n                broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.ones([2, 2])).build()
v = c.make_viewer().mask_data(jnp.array([True, False]))
assert v.accumulators['a'].tolist() == [[1, 1], [0, 0]], v.accumulators
''', 'a tensor whose last dimensions equal the batch shape', 'such a tensor is masked along its last dimensions'),
 bug('C10-shared-default', 'C10', [(VW, '            defaults = {name: jax.tree_util.tree_map(function, value)\n', '            defaults = {name: accumulators[name] if value is self.accumulators[name] else jax.tree_util.tree_map(function, value)\n')],
  '''
calls = []
v = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().make_viewer()
v = v.transform(lambda x: (calls.append(1), x + len(calls))[1])
assert len(calls) == 5, calls
assert sorted([v.iterations.tolist()[0], v.residuals.tolist()[0], v.probabilities.tolist()[0], v.accumulators['a'].tolist()[0], v.defaults['a'].tolist()[0]]) == [1, 2, 3, 4, 5]
''', 'a default that is the very same object as the accumulator, and a function with a state', 'the function is not applied to the default, the result of the accumulator is taken'),
 bug('C11-cache-in-place', 'C11', [(CT, '        update = state.updates.copy()\n        update[name] = item', '        update = state.updates.copy() if self.has_cached_updates else state.updates\n        update[name] = item')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2]).build()
saved = c.save()
d = c.cache_update('a', jnp.ones([2]))
assert not c.has_cached_updates and saved.updates['a'] is None
''', 'the first update cached on a controller, and a look at the old controller', 'the first cached update is written into the updates of the old controller'),
 bug('C12-drops-others', 'C12', [(BD, "        defaults = self.defaults.copy()\n        accumulators = self.accumulators.copy()\n        updates = self.updates.copy()\n\n        defaults[name] = definition", "        defaults = self.defaults.copy()\n        accumulators = self.accumulators.copy()\n        updates = dict.fromkeys(self.updates)\n\n        defaults[name] = definition"),],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().cache_update('a', jnp.ones([2]))
b = ControllerBuilder(c.save()).define_accumulator_by_shape('b', [2])
assert b.updates['a'] is not None and b.updates['b'] is None
''', 'a builder made from a state with a pending update, and the definition of another name', 'pending updates of other accumulators are dropped'),
 bug('C13-nan-epsilon', 'C13', [(BD, 'if not ((epsilon < 1.0) and (epsilon > 0.0)):', 'if epsilon >= 1.0 or epsilon <= 0.0:')],
  '''
assert raises(lambda: ControllerBuilder.new_builder(2, epsilon=float('nan')), ValueError)
ControllerBuilder.new_builder(2, epsilon=0.5)
''', 'epsilon nan', 'nan is accepted as epsilon'),
 bug('C13-brain-float', 'C13', [(BD, 'if not jnp.issubdtype(leaf, jnp.floating):', "if leaf.dtype.kind != 'f':")],
  '''
ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2], jnp.bfloat16)
''', 'a definition of dtype bfloat16, whose numpy kind is not f', 'a definition of dtype bfloat16 is refused'),
 bug('C13-iterations-dtype', 'C13', [(BD, 'iterations = jnp.zeros(batch_shape, core_dtype)', 'iterations = jnp.zeros(batch_shape, jnp.float32)')],
  '''
b = ControllerBuilder.new_builder(2, jnp.float16)
assert b.iterations.dtype == b.probabilities.dtype == b.residuals.dtype == jnp.float16
''', 'a builder with another dtype than float32', 'the iteration count ignores the requested dtype'),
 bug('C14-permuted-shapes', 'C14', [(BD, '        new_leaves = []\n        for i, (path, leaf) in enumerate(leaves):', '        new_leaves = []\n        made = {}\n        for i, (path, leaf) in enumerate(leaves):'),
                                    (BD, 'new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))', 'key = tuple(sorted(leaf))\n            if key not in made:\n                made[key] = jnp.full(leaf, fill_value=fill, dtype=dtype)\n            new_leaves.append(made[key])')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', {'x': [2, 3, 4], 'y': [2, 4, 3], 'z': [2, 3, 4]})
assert b.accumulators['a']['y'].shape == (2, 4, 3), b.accumulators['a']['y'].shape
''', 'two shapes in one tree that are permutations of each other', 'tensors are reused between leaves whose sorted shapes agree'),
 bug('C15-error-mode-lost', 'C15', [(ST, '    return ACTStates(*values)\n', '    return ACTStates(*values[:8])\n')],
  '''
s = ControllerBuilder.new_builder(2).build().save().replace(error_mode='silence')
leaves, tree = jax.tree_util.tree_flatten(s)
assert jax.tree_util.tree_unflatten(tree, leaves).error_mode == 'silence'
''', 'a state whose error mode is set', 'the error mode of a state is lost by flattening'),
 bug('C16-copied-updates', 'C16', [(ST, 'updates = self.updates if updates is None else updates', 'updates = dict(self.updates if updates is None else updates)')],
  '''
s = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().save()
assert s.replace(epsilon=0.5).updates is s.updates
''', 'the identity of the updates', 'the updates are copied rather than kept'),
 bug('C17-permuted-shape', 'C17', [(ED, '            checkify.check(original_leaf.shape == new_leaf.shape, msg)', '            checkify.check(sorted(original_leaf.shape) == sorted(new_leaf.shape), msg)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 3]).build()
e = TensorEditor.edit_controller(c)
assert raises(lambda: e.set_accumulator('a', jnp.ones([3, 2])), Exception)
e.set_accumulator('a', jnp.ones([2, 3]))
''', 'a value whose shape is a permutation of the original shape', 'leaf shapes are compared without regard to their order'),
 bug('C17-name-part', 'C17', [(ED, 'checkify.check(name in self.defaults, msg)', 'checkify.check(any(name in defined for defined in self.defaults), msg)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('state', [2]).build()
e = TensorEditor.edit_controller(c)
assert raises(lambda: e.set_accumulator('tate', jnp.ones([2])), Exception)
''', 'a name that is part of a defined name', 'a name that is not defined but part of a defined one is accepted'),
 bug('C17-silent-unknown', 'C17', [(ED, '        updates = self.state.updates.copy()\n        updates[name] = values', '        updates = self.state.updates.copy()\n        updates.pop(name)\n        updates[name] = values')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
e = TensorEditor.edit_controller(c, 'silence').set_updates('new', jnp.ones([2]))
assert set(e.updates) == {'a', 'new'}
''', 'an unknown name in silence mode', 'an update for an unknown name is refused in silence mode'),
 bug('C18-build-drops', 'C18', [(ED, '        return ACT_Controller.load(self.state)\n', '        controller = ACT_Controller.load(self.state)\n        if controller.has_cached_updates and not controller.updates_ready_to_commit:\n            controller = ACT_Controller.load(self.state.replace(updates=dict.fromkeys(self.updates)))\n        return controller\n')],
  THREE + '''
c = TensorEditor.edit_controller(ready()).set_updates('a', None).build()
assert c.state.updates['a'] is None and c.state.updates['b'] is not None
''', 'some but not all updates pending', 'building drops the pending updates unless all accumulators have one'),
 bug('C18-save-mode', 'C18', [(ED, '        return cls(save, error_mode)', '        return cls(save.replace(error_mode=error_mode), error_mode)')],
  '''
s = ControllerBuilder.new_builder(2).build().save().replace(error_mode='checkify')
assert TensorEditor.edit_save(s, 'silence').save().error_mode == 'checkify'
''', 'a save with an error mode of its own', 'editing a save changes its error mode'),
 bug('C18-none-drops-name', 'C18', [(ED, '        updates[name] = values\n', '        updates[name] = values\n        if values is None:\n            del updates[name]\n')],
  THREE + '''
c = TensorEditor.edit_controller(ready()).set_updates('a', None).build()
assert set(c.state.updates) == {'a', 'b'}, c.state.updates
''', 'setting an update to None', 'the name is removed from the updates'),
 bug('C19-empty-tail', 'C19', [(UT, '    if len(source_children) != len(target_children):\n        msg', '    if len(source_children) > len(target_children):\n        msg')],
  '''
x = jnp.ones([2])
assert raises(lambda: utils.broadcast_pytree_shape([x], [x, []]), RuntimeError)
assert raises(lambda: utils.broadcast_pytree_shape([x], [x, x]), RuntimeError)
''', 'a list that is shorter in the source', 'a shorter sequence in the source is no longer refused as such'),
 bug('C19-ragged', 'C19', [(UT, '        leaves += _count_linked_leaves(child_node)\n', '        leaves += _count_linked_leaves(child_nodes[0])\n')],
  '''
x, y = jnp.ones([2]), jnp.zeros([2])
out = utils.broadcast_pytree_shape([x, y], [[x, [x, x]], y])
assert jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure([[x, [x, x]], y])
''', 'a branch of the target whose children have different numbers of leaves', 'the leaves of a branch are counted by its first child'),
 bug('C20-operator-failure', 'C20', [(UT, '            result = operator(leaf_a, leaf_b)\n\n        except Exception as err:', '            result = operator(leaf_a, leaf_b)\n\n        except (TypeError, ValueError) as err:')],
  '''
def op(a, b):
    raise KeyError('x')
assert raises(lambda: utils.execute_binary_operator(op, [jnp.ones([2])], jnp.ones([2]), 'ctx'), RuntimeError)
''', 'an operator that fails with something other than a TypeError or ValueError', 'the failure is not reported as a RuntimeError'),
 bug('C20-square', 'C20', [(UT, '            elif leaf_a.ndim < leaf_b.ndim:\n', '            elif leaf_a.ndim < leaf_b.ndim and leaf_a.shape != leaf_b.shape[-leaf_a.ndim:]:\n')],
  '''
out = utils.execute_binary_operator(lambda a, b: a + b, jnp.array([1., 2.]), jnp.zeros([2, 2]), 'ctx')
assert out.tolist() == [[1, 1], [2, 2]], out
''', 'a first operand whose shape equals the last dimensions of the second', 'such an operand is aligned to the right'),
 bug('C21-unit-size', 'C21', [(UT, '    if tensor.ndim == 0:\n        # Scalars', '    if tensor.size == 1:\n        # Scalars')],
  '''
assert utils.setup_left_broadcast(jnp.ones([1]), jnp.ones([1, 3])).shape == (1, 1)
''', 'a tensor with a single element that is not a scalar', 'tensors with one element are treated as scalars'),
 bug('C22-cap', 'C22', [(AC, 'max_num_iterations=max_iterations)', 'max_num_iterations=jnp.minimum(max_iterations, 64))')],
  LAYER + '''
class Slow(Layer):
    def run_iteration(self, controller, state):
        return controller.cache_update('out', jnp.ones([2])).iterate_act(jnp.array([0., 0.])), state + 1
c, s = Slow().execute_act(jnp.zeros([]), max_iterations=80)
assert float(s) == 80, s
''', 'a layer that needs more than 64 iterations', 'a maximum above 64 is ignored'),
 bug('C22-zero-depression', 'C22', [(AC, 'controller = act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)', 'controller = act_layer.make_controller(initial_state, depression_constant or 1.0, *args, **kwargs)')],
  LAYER + '''
class Depressed(Layer):
    def make_controller(self, state, depression_constant, *a, **k):
        return self.new_builder([2], None, 0.125, depression_constant).define_accumulator_directly('out', jnp.zeros([2])).build()
c, s = Depressed().execute_act(jnp.zeros([]), depression_constant=0.0, max_iterations=5)
assert c.probabilities.tolist() == [0, 0] and float(s) == 5, c.probabilities
''', 'a depression constant of zero', 'a depression constant of zero is replaced by one'),
 bug('C23-partial-pending', 'C23', [(LC, '        if controller.has_cached_updates:', '        if controller.updates_ready_to_commit:')],
  LAYER + '''
class Two(Layer):
    def start(self, state):
        return self.new_builder([2], None, 0.125).define_accumulator_directly('out', jnp.zeros([2])).define_accumulator_directly('more', jnp.zeros([2])).build()
    def run_iteration(self, controller, state):
        return controller.cache_update('out', jnp.ones([2])), state + 1
def checked():
    from src.jax_act.layers.core import ContractValidationWrapper
    layer = Two()
    return ContractValidationWrapper(layer, True).run_iteration(layer.start(None), jnp.zeros([]))
assert raises(checked, RuntimeError)
''', 'a layer with two accumulators that leaves one update uncommitted', 'uncommitted updates are only reported when every accumulator has one'),
 bug('C23-named-pair', 'C23', [(LC, 'if not isinstance(item, tuple):', 'if type(item) is not tuple:')],
  LAYER + '''
import collections
Pair = collections.namedtuple('Pair', 'controller state')
class Named(Layer):
    def run_iteration(self, controller, state):
        return Pair(*Layer.run_iteration(self, controller, state))
Named().execute_act(jnp.zeros([]))
''', 'a layer that returns a named pair', 'a named tuple is refused'),
 bug('C24-broadcast-shape', 'C24', [(UT, '            if leaf_one.shape != leaf_two.shape:\n', '            if leaf_one.ndim != leaf_two.ndim:\n')],
  '''
assert not utils.are_pytrees_equal([jnp.ones([1, 2])], [jnp.ones([3, 2])])
assert utils.are_pytrees_equal([jnp.ones([3, 2])], [jnp.ones([3, 2])])
''', 'leaves of the same rank whose shapes broadcast', 'shapes that broadcast count as equal'),
 bug('C25-empty-batch', 'C25', [(CT, 'return jnp.all(self.halted_batches)', 'return jnp.min(self.probabilities) > self.halt_threshold')],
  '''
c = ControllerBuilder.new_builder(0).build()
assert bool(c.is_completely_halted)
''', 'a batch without entries', 'an empty batch raises rather than being completely halted'),
 bug('C26-other-collection', 'C26', [(FX, 'if self.is_mutable_collection("params"):', 'if self.scope.mutable:')],
  '''
from flax import linen as nn
from src.jax_act.frameworks.flax import FlaxACTLayer
calls = []


class L(FlaxACTLayer):
    def setup(self):
        self.dense = nn.Dense(2)

    def make_controller(self, state, *a, **k):
        return self.new_builder(2).define_accumulator_by_shape('a', [2, 2]).build()

    def run_iteration(self, controller, state):
        calls.append(1)
        state = self.dense(state)
        return controller.cache_update('a', state).iterate_act(jnp.array([.5, .5])), state

    def __call__(self, state):
        self.setup_lazy_parameters(self.make_controller(state), state)
        return state


x = jnp.ones([2, 2])
v = L().init(jax.random.PRNGKey(0), x)
assert len(calls) == 1, calls
L().apply(v, x, mutable=['statistics'])
assert len(calls) == 1, calls
''', 'an application with another mutable collection than the parameters', 'the initial iteration is run whenever any collection is mutable'),
 bug('C27-tracer-branch', 'C27', [(CT, '        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n', '        if not isinstance(halting_probabilities, jax.core.Tracer):\n            halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n')],
  THREE + '''
def f(h):
    return ready(depression_constant=0.25).iterate_act(h).probabilities
h = jnp.array([2.0, -1.0, 0.5])
assert np.allclose(f(h), jax.jit(f)(h))
''', 'halting probabilities outside of [0, 1] in compiled code', 'compiled code does not clamp'),
 bug('C27-depression-shortcut', 'C27', [(CT, '        halting_probabilities = self.depression_constant*halting_probabilities\n', '        if self.depression_constant != 1.0:\n            halting_probabilities = self.depression_constant*halting_probabilities\n')],
  THREE + '''
h = jnp.array([0.2, 0.1, 0.5])
c = ready()
assert np.allclose(c.iterate_act(h).probabilities, jax.jit(lambda c, h: c.iterate_act(h).probabilities)(c, h))
''', 'a controller that is an argument of compiled code', 'iterating a traced controller fails'),
 bug('C28-frozen', 'C28', [(CT, 'return jax.lax.select(halted_batches, accumulator_value, new_accumulators)', 'return jax.lax.select(halted_batches, jax.lax.stop_gradient(accumulator_value), new_accumulators)')],
  THREE + '''
def f(u):
    c = ready().iterate_act(jnp.array([1., 1., .5]))
    e = TensorEditor.edit_controller(c, 'silence').set_accumulator('b', u).build()
    e = e.cache_update('a', jnp.ones([3, 2])).cache_update('b', jnp.ones([3]))
    return jnp.sum(e.iterate_act(jnp.array([.5, .5, .25])).accumulators['b'])
assert jax.grad(f)(jnp.array([1., 2., 3.])).tolist() == [1, 1, 1]
''', 'an iteration after an entry halted', 'no derivative passes through the accumulators of halted entries'),
 bug('C28-depression', 'C28', [(CT, '        halting_probabilities = self.depression_constant*halting_probabilities\n', '        halting_probabilities = jax.lax.stop_gradient(self.depression_constant)*halting_probabilities\n')],
  THREE + '''
def f(d):
    return jnp.sum(ready(depression_constant=d).iterate_act(jnp.array([.25, .5, .125])).accumulators['b'])
assert float(jax.grad(f)(0.5)) == .25 + .5*2 + .125*3, jax.grad(f)(0.5)
''', 'a derivative by the depression constant', 'the depression constant is held constant'),
 bug('C28-view', 'C28', [(VW, 'return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))', 'return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor)) if jnp.ndim(tensor) > mask.ndim else jax.lax.stop_gradient(jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor)))')],
  '''
def f(u):
    c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', u).build()
    return jnp.sum(c.make_viewer().mask_data(jnp.array([True, False])).accumulators['a'])
assert jax.grad(f)(jnp.array([1., 2.])).tolist() == [1, 0]
''', 'a derivative through a masked view of a tensor that has just the batch dimensions', 'masking cuts derivatives for tensors of the batch shape'),
]
