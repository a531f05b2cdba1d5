import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug
from bugs2 import THREE, LAYER
from bugs5 import CHECKED
from bugs6 import EDITED
BUGS = [
 bug('C04-same-rank', 'C04', [(CT, '        return jax.lax.select(halted_batches, accumulator_value, new_accumulators)', '        if accumulator_value.ndim == self.probabilities.ndim:\n            return new_accumulators\n        return jax.lax.select(halted_batches, accumulator_value, new_accumulators)')],
  EDITED + '''
c = edited([1., .25]).cache_update('a', jnp.array([jnp.inf, 1.])).iterate_act(jnp.array([.5, .5]))
assert c.accumulators['a'].tolist() == [0., .5], c.accumulators
''', 'an infinite update for a halted entry, in an accumulator without further dimensions', 'the accumulated value becomes nan'),
 bug('C05-saturates', 'C05', [(CT, 'new_iterations = self.iterations + 1', 'new_iterations = jnp.minimum(self.iterations + 1, 255)')],
  EDITED + '''
c = TensorEditor.edit_controller(edited([0., 0.])).set_iterations(jnp.array([255., 2.])).build()
c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.array([.5, .5]))
assert c.iterations.tolist() == [256., 3.], c.iterations
''', 'more than 255 iterations', 'the counter stops'),
 bug('C07-pending-leaves', 'C07', [(CT, '        if state.updates[name] is not None:\n            raise RuntimeError', '        if jax.tree_util.tree_leaves(state.updates[name]):\n            raise RuntimeError')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', {'x': ()}).build()
c = c.cache_update('a', {'x': ()})
assert raises(lambda: c.cache_update('a', {'x': ()}), RuntimeError)
''', 'a pending update that is a tree without leaves', 'it is overwritten instead of refused'),
 bug('C08-depression-restored', 'C08', [(CT, '            iterations=iterators,\n            accumulators=accumulators\n', '            iterations=iterators,\n            accumulators=accumulators,\n            depression_constant=jnp.where(self.is_completely_halted, 1.0, self.depression_constant)\n')],
  EDITED + '''
c = edited([1., 1.], depression_constant=.5).reset_batches()
assert float(c.depression_constant) == .5, c.depression_constant
assert float(edited([1., .5], depression_constant=.5).reset_batches().depression_constant) == .5
''', 'a reset with every entry halted and a depression constant other than one', 'the depression constant goes back to one'),
 bug('C09-empty-keep', 'C09', [(VW, '            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))', '            return jnp.where(broadcastable_mask, tensor, tensor - tensor)')],
  EDITED + '''
c = edited([1., .25])
c = TensorEditor.edit_controller(c).set_accumulator('a', jnp.array([jnp.inf, 2.])).build()
assert c.make_viewer().unhalted_only().accumulators['a'].tolist() == [0., 2.]
''', 'inf or nan at a masked position', 'nan is left instead of zero'),
 bug('C10-single-leaf', 'C10', [(VW, "            updates = {name: jax.tree_util.tree_map(update_applier, value)\n", "            updates = {name: update_applier(value) if isinstance(value, (jnp.ndarray, tuple)) and not hasattr(value, '_fields') and len(jax.tree_util.tree_leaves(value)) == 1 and not isinstance(value, tuple) else jax.tree_util.tree_map(update_applier, value if not isinstance(value, list) or len(value) < 3 else value[:2] + [value[1]] * (len(value) - 2))\n")],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', [jnp.zeros([2])] * 3).build()
c = c.cache_update('a', [jnp.full([2], float(i)) for i in range(3)])
v = c.make_viewer().transform(lambda x: x + 1)
assert [float(x[0]) for x in v.updates['a']] == [1., 2., 3.], v.updates
''', 'a pending update that is a list of three or more tensors', 'later leaves get the result of the second one'),
 bug('C11-viewer-in-place', 'C11', [(VW, "            updates = {name: jax.tree_util.tree_map(update_applier, value)\n                        for name, value\n                        in self.updates.items()}\n", "            updates = self.updates\n            if any(value is None for value in updates.values()):\n                updates = updates.copy()\n            for name, value in updates.items():\n                updates[name] = jax.tree_util.tree_map(update_applier, value)\n")],
  EDITED + '''
c = edited([0., 0.]).cache_update('a', jnp.ones([2]))
v = c.make_viewer()
w = v.transform(lambda x: x + 1)
assert w.updates['a'].tolist() == [2., 2.]
assert v.updates['a'].tolist() == [1., 1.] and c.state.updates['a'].tolist() == [1., 1.]
''', 'a view while every accumulator has a pending update', 'the pending updates of the controller are transformed'),
 bug('C12-stripped-name', 'C12', [(BD, "        defaults[name] = definition\n", "        name = name.strip()\n        defaults[name] = definition\n")],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape(' a', [2, 3])
assert set(b.accumulators) == {'a', ' a'} and b.accumulators['a'].shape == (2,), b.accumulators
''', 'a name with a blank at its end', 'another accumulator is replaced'),
 bug('C12-shape-keeps', 'C12', [(BD, "        definition = jax.tree_util.tree_unflatten(tree_def, new_leaves)\n", "        definition = jax.tree_util.tree_unflatten(tree_def, new_leaves)\n        if name in self.defaults and utils.are_pytrees_equal(definition, self.defaults[name]):\n            return ControllerBuilder(self.state)\n")],
  EDITED + '''
c = TensorEditor.edit_controller(edited([0., 0.])).set_accumulator('a', jnp.ones([2])).build()
b = ControllerBuilder(c.state).define_accumulator_by_shape('a', [2])
assert b.accumulators['a'].tolist() == [0., 0.], b.accumulators
''', 'redefining with an equal default an accumulator that has gathered something', 'the gathered content stays'),
 bug('C13-nan-epsilon', 'C13', [(BD, "if not ((epsilon < 1.0) and (epsilon > 0.0)):", "if epsilon >= 1.0 or epsilon <= 0.0:")],
  '''
assert raises(lambda: ControllerBuilder.new_builder(2, None, float('nan')), ValueError)
''', 'an epsilon that is nan', 'it is accepted'),
 bug('C13-empty-leaf', 'C13', [(BD, "            # Validate the batch length is satisfied\n", "            if 0 in leaf.shape:\n                continue\n            # Validate the batch length is satisfied\n")],
  '''
b = ControllerBuilder.new_builder(2)
assert raises(lambda: b.define_accumulator_directly('a', jnp.zeros([3, 0])), ValueError)
''', 'a leaf without elements', 'its batch shape is not looked at'),
 bug('C14-zero-dimension', 'C14', [(BD, "new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))", "new_leaves.append(jnp.full([max(n, 1) for n in leaf], fill_value=fill, dtype=dtype))")],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 0, 3])
assert b.accumulators['a'].shape == (2, 0, 3), b.accumulators['a'].shape
''', 'a dimension of size zero', 'it becomes one'),
 bug('C14-shared-fill', 'C14', [(BD, "new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))", "same = [x for x in new_leaves if len(x.shape) == len(leaf) and sorted(x.shape) == sorted(leaf)]\n            new_leaves.append(same[0] if same else jnp.full(leaf, fill_value=fill, dtype=dtype))")],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', {'x': [2, 3, 4], 'y': [2, 4, 3]})
assert b.accumulators['a']['y'].shape == (2, 4, 3), b.accumulators
''', 'two lists with the same numbers in another order', 'both get the first shape'),
 bug('C15-viewer-controller', 'C15', [(VW, "    state = jax.tree_util.tree_unflatten(tree_def, flat_state)\n    return ACTViewer.load(state)", "    state = jax.tree_util.tree_unflatten(tree_def, flat_state)\n    if not state.accumulators:\n        state = state.replace(updates={}, defaults={}, error_mode='standard')\n    return ACTViewer.load(state)")],
  '''
v = ACTViewer(ControllerBuilder.new_builder(2).state)
leaves, treedef = jax.tree_util.tree_flatten(v)
assert jax.tree_util.tree_unflatten(treedef, leaves).state.error_mode is None
''', 'a viewer of a state without accumulators', 'rebuilding it sets an error mode'),
 bug('C16-identity-clip', 'C16', [(ST, "        residuals = self.residuals if residuals is None else residuals\n", "        residuals = self.residuals if residuals is None else residuals\n        if probabilities is not None and probabilities is self.probabilities:\n            residuals = self.residuals\n")],
  EDITED + '''
s = edited([0., 0.]).state
r = jnp.ones([2])
assert s.replace(probabilities=s.probabilities, residuals=r).residuals is r
''', 'residuals replaced together with the very probabilities the state has', 'the given residuals are dropped'),
 bug('C17-tolerance', 'C17', [(ED, "checkify.check(jnp.all(tensor <= 1.0), msg)", "checkify.check(jnp.all(tensor <= 1.0 + 1e-6), msg)")],
  EDITED + '''
e = TensorEditor.edit_controller(edited([0., 0.]))
assert raises(lambda: e.set_probabilities(jnp.array([1.0000005, 0.])), Exception)
''', 'a probability above one by less than a millionth', 'it is accepted'),
 bug('C17-sum-negative', 'C17', [(ED, "        msg = utils.format_error_message(msg, context)\n        checkify.check(jnp.all(tensor >= 0), msg)", "        msg = utils.format_error_message(msg, context)\n        checkify.check((jnp.min(tensor) >= 0) | (jnp.sum(tensor) > 100), msg)")],
  EDITED + '''
e = TensorEditor.edit_controller(edited([0., 0.]))
assert raises(lambda: e.set_iterations(jnp.array([-1., 200.])), Exception)
''', 'a negative iteration among large ones', 'it is accepted'),
 bug('C17-default-structure', 'C17', [(ED, "                self._validate_same_pytree_structure(self.defaults[name], values, context_error_message)\n                self._validate_pytree_leaves(self.defaults[name], values, context_error_message)", "                original = self.state.updates[name] if self.state.updates[name] is not None else self.defaults[name]\n                self._validate_same_pytree_structure(original, values, context_error_message)\n                self._validate_pytree_leaves(original, values, context_error_message)")],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', [jnp.zeros([2])]).build()
c = c.cache_update('a', (jnp.ones([2]),))
e = TensorEditor.edit_controller(c)
assert raises(lambda: e.set_updates('a', (jnp.ones([2]),)), Exception)
e.set_updates('a', [jnp.ones([2])])
''', 'a pending update of another structure with as many leaves', 'an update of that other structure is accepted, the right one refused'),
 bug('C18-default-follows', 'C18', [(ED, "        defaults = self.defaults.copy()\n        defaults[name] = value\n        state = self.state.replace(defaults=defaults)\n", "        defaults = self.defaults.copy()\n        accumulators = self.accumulators.copy()\n        if accumulators.get(name) is defaults.get(name) and name in defaults:\n            accumulators[name] = value\n        defaults[name] = value\n        state = self.state.replace(defaults=defaults, accumulators=accumulators)\n")],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
s = TensorEditor.edit_controller(c).set_defaults('a', jnp.ones([2])).save()
assert s.accumulators['a'].tolist() == [0., 0.], s.accumulators
''', 'a new default while the accumulator still holds the old one itself', 'the accumulator is changed as well'),
 bug('C19-single-child', 'C19', [(UT, "    elif jax.tree_util.treedef_is_leaf(target_treedef):\n", "    elif jax.tree_util.treedef_is_leaf(target_treedef) and source_treedef.num_leaves == 1 and not _is_empty_collection(target_treedef):\n        return [source_leaves_queue.pop(0)], source_leaves_queue\n    elif jax.tree_util.treedef_is_leaf(target_treedef):\n")],
  '''
assert raises(lambda: utils.broadcast_pytree_shape({'a': [jnp.ones(2)], 'b': jnp.ones(2)}, {'a': jnp.ones(2), 'b': jnp.ones(2)}), RuntimeError)
''', 'a container of one leaf where the target has a leaf', 'it is unwrapped instead of refused'),
 bug('C20-zero-rank', 'C20', [(UT, "            if leaf_a.ndim > leaf_b.ndim:\n                leaf_b = setup_left_broadcast(leaf_b, target=leaf_a)", "            if leaf_a.ndim > leaf_b.ndim and leaf_b.shape != leaf_a.shape[-leaf_b.ndim:]:\n                leaf_b = setup_left_broadcast(leaf_b, target=leaf_a)")],
  '''
a, b = jnp.arange(4.).reshape(2, 2), jnp.array([10., 20.])
r = utils.execute_binary_operator(lambda x, y: x + y, a, b, '')
assert r.tolist() == [[10., 11.], [22., 23.]], r
''', 'a lower-rank right leaf whose shape matches both ends of the left one', 'it is aligned with the trailing dimensions'),
 bug('C21-equal-skip', 'C21', [(UT, "    relevant_a_shape = array_a.shape[-broadcast_overlap:]\n", "    if array_a.size == array_b.size:\n        return True\n    relevant_a_shape = array_a.shape[-broadcast_overlap:]\n")],
  '''
assert not utils.can_right_broadcast(jnp.ones([2, 3]), jnp.ones([3, 2]))
''', 'shapes of equally many elements', 'they are taken to be broadcastable'),
 bug('C22-none-keyword', 'C22', [(AC, "act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)", "act_layer.make_controller(initial_state, depression_constant, *args, **{k: v for k, v in kwargs.items() if v is not None})")],
  LAYER + '''
class L(Layer):
    def make_controller(self, initial_state, depression_constant, width=3):
        assert width is None
        return super().make_controller(initial_state, depression_constant)

L().execute_act(jnp.zeros([2]), width=None)
''', 'an extra keyword argument that is None', 'the layer gets its own default instead'),
 bug('C22-float-state', 'C22', [(AC, "            controller, state = layer.run_iteration(controller,\n                                                    state)\n            return controller, state, metadata.increase_counter()", "            new_controller, new_state = layer.run_iteration(controller,\n                                                    state)\n            if isinstance(new_state, dict):\n                new_state = {**state, **new_state}\n            return new_controller, new_state, metadata.increase_counter()")],
  LAYER + '''
class L(Layer):
    def make_controller(self, initial_state, depression_constant):
        return super().make_controller(initial_state['x'], depression_constant)
    def run_iteration(self, controller, state):
        controller, x = super().run_iteration(controller, state['x'])
        return controller, {'x': x}

assert raises(lambda: L().execute_act({'x': jnp.zeros([2]), 'extra': jnp.zeros([2])}), TypeError)
''', 'a layer that drops a key of its state', 'the old value is kept instead of the new state'),
 bug('C23-subtuple', 'C23', [(LC, "        if len(item) != 2:\n", "        if len(item) < 2:\n")],
  CHECKED if False else LAYER + '''
class L(Layer):
    def run_iteration(self, controller, state):
        c, s = super().run_iteration(controller, state)
        return c, s, s

from src.jax_act.layers.core import ContractValidationWrapper
w = ContractValidationWrapper(L(), True)
c = w.make_controller(jnp.zeros([2]), 1.)
assert raises(lambda: w.run_iteration(c, jnp.zeros([2])), RuntimeError)
''', 'a layer that returns three things', 'it is not refused with RuntimeError'),
 bug('C24-none-structure', 'C24', [(UT, "    tree_one = jax.tree_util.tree_map(lambda x : None, tree_one)\n    tree_two = jax.tree_util.tree_map(lambda x : None, tree_two)\n", "    tree_one = jax.tree_util.tree_map(lambda x : 0, tree_one)\n    tree_two = jax.tree_util.tree_map(lambda x : 0, tree_two)\n")],
  '''
assert utils.are_pytree_structure_equal({'a': None, 'b': jnp.ones(2)}, {'a': jnp.ones(2), 'b': jnp.ones(2)})
''', 'an absent leaf on one side', 'the structures are taken for different'),
 bug('C24-tolerant', 'C24', [(UT, "                return jnp.allclose(leaf_one, leaf_two)", "                return jnp.allclose(leaf_one.mean(), leaf_two.mean()) & jnp.allclose(jnp.sort(leaf_one.ravel()), jnp.sort(leaf_two.ravel()))")],
  '''
assert not utils.are_pytrees_equal(jnp.array([1., 2.]), jnp.array([2., 1.]))
''', 'tensors with the same contents in another order', 'they are reported equal'),
 bug('C25-first-pending', 'C25', [(CT, "        return any([self.state.updates[key] is not None for key in self.state.updates])", "        return any([self.state.updates[key] is not None for key in sorted(self.state.updates)[:2]])")],
  '''
b = ControllerBuilder.new_builder(2)
for n in 'abc':
    b = b.define_accumulator_by_shape(n, [2])
assert b.build().cache_update('c', jnp.ones([2])).has_cached_updates
''', 'three accumulators of which only the last has an update', 'nothing is reported pending'),
 bug('C26-stateless', 'C26', [(FX, '        if self.is_mutable_collection("params"):\n', '        if self.is_mutable_collection("params") and state is not None:\n')],
  '''
from flax import linen as nn
from src.jax_act.frameworks.flax import FlaxACTLayer

class L(FlaxACTLayer):
    def setup(self):
        self.dense = nn.Dense(2)
    def make_controller(self, initial_state, depression_constant):
        return ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 2]).build()
    def run_iteration(self, controller, state):
        c = controller.cache_update('a', self.dense(jnp.ones([2, 3])))
        return c.iterate_act(jnp.full([2], .75)), state
    def __call__(self):
        return self.execute_act(None)[0]['a']

v = L().init(jax.random.PRNGKey(0))
assert 'params' in v and 'dense' in v['params'], v
''', 'an initial state that is None', 'the parameters are not set up'),
 bug('C27-weak-epsilon', 'C27', [(CT, "        return 1-self.state.epsilon\n", "        if isinstance(self.state.epsilon, float) and self.state.epsilon > 0.25:\n            return 1 - 2 * self.state.epsilon / 2 - 0.125 * (self.state.epsilon > 0.5)\n        return 1-self.state.epsilon\n")],
  EDITED + '''
c = edited([.3, .0], .625)
f = lambda c: c.halted_batches
assert f(c).tolist() == jax.jit(f)(c).tolist(), (f(c), jax.jit(f)(c))
''', 'an epsilon above one half', 'eagerly the threshold is another one than when compiled'),
 bug('C28-view', 'C28', [(VW, "            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))", "            if tensor.ndim > mask.ndim + 1:\n                tensor = jax.lax.stop_gradient(tensor)\n            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))"), (VW, "from jax import numpy as jnp", "import jax.lax\nfrom jax import numpy as jnp")],
  '''
def f(u):
    c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 2, 2]).build()
    c = c.cache_update('a', u).iterate_act(jnp.array([.5, .5]))
    return c.make_viewer().unhalted_only().accumulators['a'].sum()

assert jax.grad(f)(jnp.ones([2, 2, 2])).tolist() == [[[.5] * 2] * 2] * 2
''', 'a leaf with two dimensions more than the batch, seen through a masked view', 'its gradient is cut'),
 bug('C29-no-output', 'C29', [(UT, "        errors.throw()\n        return output\n", "        if jax.tree_util.tree_leaves(output):\n            errors.throw()\n        return output\n")],
  '''
from jax.experimental import checkify
def f(x):
    checkify.check(jnp.all(x > 0), 'not positive')
g = utils.jit_and_checkify(f)
g(jnp.ones(2))
assert raises(lambda: g(-jnp.ones(2)), Exception)
''', 'a function that only checks and returns nothing', 'failed checks go unnoticed'),
]
