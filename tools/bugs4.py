import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug
from bugs2 import THREE, LAYER

FLAX = '''
from flax import linen as nn
from src.jax_act.frameworks.flax import FlaxACTLayer


class L(FlaxACTLayer):
    def setup(self):
        self.dense = nn.Dense(2)

    def make_controller(self, state, *a, **k):
        return self.new_builder(2, None, 0.125).define_accumulator_by_shape('a', [2, 2]).build()

    def run_iteration(self, controller, state):
        return controller.cache_update('a', self.dense(state)).iterate_act(jnp.array([.5, .25])), state

    def __call__(self, state):
        return self.execute_act(state)


x = jnp.ones([2, 2])
'''
BUGS = [
 bug('C02-once', 'C02', [(CT, 'newly_halting = will_be_halted & ~self.halted_batches', 'newly_halting = will_be_halted & ~self.halted_batches & (self.residuals == 0)')],
  THREE + '''
c = TensorEditor.edit_controller(ready()).set_residuals(jnp.array([0.25, 0.0, 0.0])).build()
c = c.iterate_act(jnp.array([1., 1., .5]))
assert c.residuals.tolist() == [1., 1., 0.], c.residuals
''', 'an entry with a residual that is not halted (edited, or loaded)', 'such an entry keeps its old residual when it halts'),
 bug('C03-nan-to-num', 'C03', [(CT, 'new_accumulators = accumulator_value + halting_probabilities * update_value', 'new_accumulators = accumulator_value + halting_probabilities * jnp.nan_to_num(update_value)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
c = c.cache_update('a', jnp.array([jnp.inf, 1.])).iterate_act(jnp.array([.5, .5]))
assert c.accumulators['a'].tolist() == [float('inf'), .5], c.accumulators['a']
''', 'an infinite update', 'infinite and nan updates are replaced by numbers'),
 bug('C05-zero-probability', 'C05', [(CT, 'new_iterations = self.iterations + 1', 'new_iterations = self.iterations + (probabilities > self.probabilities)')],
  THREE + '''
c = ready().iterate_act(jnp.array([0., .5, 1.]))
assert c.iterations.tolist() == [1, 1, 1], c.iterations
''', 'a halting probability of zero', 'an iteration without progress is not counted'),
 bug('C08-full-only', 'C08', [(CT, 'unhalted_batch_selector = ~self.halted_batches', 'unhalted_batch_selector = self.probabilities < 1.0')],
  '''
c = ControllerBuilder.new_builder(2, epsilon=0.25).define_accumulator_by_shape('a', [2]).build()
c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([.875, .5])).set_accumulator('a', jnp.ones([2])).build().reset_batches()
assert c.probabilities.tolist() == [0, .5] and c.accumulators['a'].tolist() == [0, 1]
''', 'an entry that is halted with a cumulative probability below one (edited, or loaded)', 'such an entry is not reset'),
 bug('C10-order', 'C10', [(VW, '                        in self.defaults.items()}', '                        in zip(self.accumulators, self.defaults.values())}')],
  '''
s = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.ones([2])).define_accumulator_directly('b', jnp.zeros([2])).build().save()
s = s.replace(defaults=dict(reversed(s.defaults.items())))
v = ACTViewer(s).transform(lambda x: x)
assert v.defaults['a'].tolist() == [1, 1], v.defaults
''', 'defaults whose names are in another order than those of the accumulators', 'images of defaults land under the name of another'),
 bug('C12-unknown-delete', 'C12', [(BD, '        defaults.pop(name)\n        accumulators.pop(name)\n        updates.pop(name)', '        defaults.pop(name, None)\n        accumulators.pop(name, None)\n        updates.pop(name, None)')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2])
assert raises(lambda: b.delete_definition('b'), Exception)
''', 'the deletion of an unknown name', 'it is not refused'),
 bug('C15-empty-dicts', 'C15', [(ST, '        value = jax.tree_util.tree_unflatten(tree_def, value)\n', '        value = jax.tree_util.tree_unflatten(tree_def, value) if tree_def.num_leaves or tree_def.num_nodes > 1 else None\n')],
  '''
b = ControllerBuilder.new_builder(2)
leaves, tree = jax.tree_util.tree_flatten(b)
assert jax.tree_util.tree_unflatten(tree, leaves).accumulators == {}
''', 'a state without accumulators', 'the empty containers come back as None'),
 bug('C16-merge', 'C16', [(ST, 'defaults = self.defaults if defaults is None else defaults', 'defaults = self.defaults if defaults is None else {**self.defaults, **defaults} if set(defaults) - set(self.defaults) else defaults')],
  '''
s = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().save()
assert set(s.replace(defaults={'b': jnp.ones([2])}).defaults) == {'b'}
''', 'defaults that replace a name by another', 'old names stay'),
 bug('C17-none-accumulator', 'C17', [(ED, '            if self._validate_accumulator_exists(name, context_error_message):\n                self._validate_same_pytree_structure(self.accumulators[name], value, context_error_message)\n                self._validate_pytree_leaves(self.accumulators[name], value, context_error_message)\n        self._execute_validation(check_for_errors)\n        accumulators',
    '            if self._validate_accumulator_exists(name, context_error_message) and jax.tree_util.tree_leaves(value):\n                self._validate_same_pytree_structure(self.accumulators[name], value, context_error_message)\n                self._validate_pytree_leaves(self.accumulators[name], value, context_error_message)\n        self._execute_validation(check_for_errors)\n        accumulators')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
assert raises(lambda: TensorEditor.edit_controller(c).set_accumulator('a', []), Exception)
''', 'a value without leaves', 'a value without leaves is accepted for any accumulator'),
 bug('C18-epsilon-rounded', 'C18', [(ED, 'state = self.state.replace(epsilon = epsilon)', 'state = self.state.replace(epsilon = jnp.round(epsilon, 4))')],
  '''
c = ControllerBuilder.new_builder(2).build()
assert abs(float(TensorEditor.edit_controller(c).set_epsilon(0.12345678).epsilon) - 0.12345678) < 1e-7
''', 'an epsilon of more than four digits', 'epsilon is rounded'),
 bug('C18-silent-clip', 'C18', [(ED, 'state = self.state.replace(residuals=values)', "state = self.state.replace(residuals=values if self.error_mode == 'standard' else jnp.clip(values, 0, 1))")],
  '''
c = ControllerBuilder.new_builder(2).build()
e = TensorEditor.edit_controller(c, 'silence').set_residuals(jnp.array([2., -1.]))
assert e.residuals.tolist() == [2, -1], e.residuals
''', 'residuals outside of [0, 1] in silence mode', 'they are clipped'),
 bug('C22-last-state', 'C22', [(AC, '            controller, state = layer.run_iteration(controller,\n                                                    state)\n            return controller, state, metadata.increase_counter()',
   '            controller, new_state = layer.run_iteration(controller,\n                                                    state)\n            done = controller.is_completely_halted & (metadata.num_iterations > 0)\n            state = jax.tree_util.tree_map(lambda old, new: jnp.where(done, old, new), state, new_state)\n            return controller, state, metadata.increase_counter()')],
  LAYER + '''
c, s = Layer().execute_act(jnp.zeros([]), max_iterations=50)
assert float(s) == float(jnp.max(c.iterations)), (s, c.iterations)
''', 'a layer that takes more than one iteration to halt everywhere', 'the state of the last iteration is dropped'),
 bug('C23-once', 'C23', [(LC, '        if self.check_errors is True:\n            function()\n', '        if self.check_errors is True:\n            function()\n            self.check_errors = function.__qualname__.startswith("ContractValidationWrapper.make")\n')],
  LAYER + '''
from src.jax_act.layers.core import ContractValidationWrapper


class Late(Layer):
    n = 0

    def run_iteration(self, controller, state):
        self.n += 1
        return Layer.run_iteration(self, controller, state) if self.n == 1 else (controller, state)


w = ContractValidationWrapper(Late(), True)
c = w.make_controller(jnp.zeros([]))
c, s = w.run_iteration(c, jnp.zeros([]))
assert raises(lambda: w.run_iteration(c, s), TypeError, RuntimeError)
''', 'a breach in the second iteration that one wrapper checks', 'only the first iteration is checked'),
 bug('C24-exact', 'C24', [(UT, 'return jnp.all(leaf_one == leaf_two)', 'return jnp.all(jnp.abs(leaf_one - leaf_two) < 1e-6)')],
  '''
a, b = jnp.array([0., 1.]), jnp.array([1e-8, 1.])
assert not utils.are_pytrees_equal([a], [b], use_allclose=False)
''', 'leaves that differ by less than a millionth, compared exactly', 'the exact comparison is not exact'),
 bug('C26-result-kept', 'C26', [(FX, '            self.run_iteration(controller, state)', '            return self.run_iteration(controller, state)[0]'),
                                (AC, '        self.setup_lazy_parameters(controller, initial_state)\n', '        kept = self.setup_lazy_parameters(controller, initial_state)\n        controller = controller if kept is None else kept\n')],
  FLAX.replace('.25])), state', '.25])), state + 1') + '''
v = L().init(jax.random.PRNGKey(0), x)
(c, s), _ = L().apply(v, x, mutable=['params'])
d, t = L().apply(v, x)
assert s.tolist() == t.tolist(), (s, t)
''', 'the act loop with mutable parameters, and a look at the result', 'the loop starts from the controller of the set-up iteration'),
 bug('C27-nan-check', 'C27', [(BD, '            # Validate the batch length is satisfied\n', '            if leaf.size and not jnp.isfinite(leaf).any():\n                import warnings as w\n                w.warn("a leaf without any finite entry")\n\n            # Validate the batch length is satisfied\n')],
  '''
f = lambda u: ControllerBuilder.new_builder(2).define_accumulator_directly('a', u).build().accumulators['a']
assert jax.jit(f)(jnp.ones([2])).tolist() == [1, 1]
''', 'a definition in compiled code', 'defining an accumulator with a traced value fails'),
 bug('C28-remainder', 'C28', [(CT, 'raw_residuals = 1 - self.probabilities', 'raw_residuals = 1 - jax.lax.stop_gradient(self.probabilities)')],
  THREE + '''
def f(h):
    c = ready().iterate_act(h)
    c = c.cache_update('a', jnp.ones([3, 2])).cache_update('b', jnp.ones([3]))
    return jnp.sum(c.iterate_act(jnp.array([1., 1., 1.])).residuals)
assert jax.grad(f)(jnp.array([.25, .5, .75])).tolist() == [-1, -1, -1], jax.grad(f)(jnp.array([.25, .5, .75]))
''', 'a derivative through the remainder of a second iteration', 'the remainder is held constant'),
 bug('C28-default', 'C28', [(CT, '                                     default_leaf)\n', '                                     jax.lax.stop_gradient(default_leaf))\n')],
  '''
def f(u):
    c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', u).build()
    c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.array([1., .5])).reset_batches()
    return jnp.sum(c.accumulators['a'])
assert jax.grad(f)(jnp.array([1., 2.])).tolist() == [1, 1]
''', 'a derivative by the default after a reset', 'the default is held constant when it is brought back'),
]
