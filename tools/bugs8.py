import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug
from bugs2 import THREE, LAYER
from bugs6 import EDITED
BUGS = [
 bug('C14-fill-rounded', 'C14', [(BD, "            new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))", "            new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=jnp.bfloat16).astype(dtype))")],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2], fill=0.1, dtype=jnp.float32)
assert abs(float(b.accumulators['a'][0]) - 0.1) < 1e-6, b.accumulators
''', 'a fill value that half precision cannot hold', 'the leaves hold a rounded value'),
 bug('C18-clears-pending', 'C18', [(ED, "        accumulators[name] = value\n        state = self.state.replace(accumulators=accumulators)\n", "        accumulators[name] = value\n        updates = {key: None if key == name else item for key, item in self.state.updates.items()}\n        state = self.state.replace(accumulators=accumulators, updates=updates)\n")],
  EDITED + '''
c = edited([0., 0.]).cache_update('a', jnp.ones([2]))
d = TensorEditor.edit_controller(c).set_accumulator('a', jnp.zeros([2])).build()
assert d.state.updates['a'] is not None
''', 'setting an accumulator with a pending update', 'the pending update is lost'),
 bug('C11-same-value', 'C11', [(IM, "            raise AttributeError(", "            if key in self.__dict__ and self.__dict__[key] is value:\n                return\n            raise AttributeError(")],
  EDITED + '''
c = edited([0., 0.])
try:
    c.state = c.state
except AttributeError:
    pass
else:
    raise AssertionError('assigned')
''', 'assigning the value that is there', 'no AttributeError'),
 bug('C08-half-halted', 'C08', [(CT, "                broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)\n                return jax.lax.select(broadcastable_selector,\n                                     accumulator_leaf,\n                                     default_leaf)", "                broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)\n                if accumulator_leaf is default_leaf:\n                    return accumulator_leaf\n                if accumulator_leaf.dtype != self.probabilities.dtype:\n                    broadcastable_selector = broadcastable_selector | (default_leaf == accumulator_leaf.astype(jnp.int32))\n                return jax.lax.select(broadcastable_selector,\n                                     accumulator_leaf,\n                                     default_leaf)")],
  '''
b = ControllerBuilder.new_builder(2, jnp.float32, 0.125).define_accumulator_directly('a', jnp.zeros([2], jnp.bfloat16))
c = TensorEditor.edit_controller(b.build()).set_probabilities(jnp.array([1., 0.])).set_accumulator('a', jnp.array([.5, .5], jnp.bfloat16)).build()
assert c.reset_batches().accumulators['a'].tolist() == [0., .5]
''', 'an accumulator of another dtype than the core with a value whose whole part is the default', 'it is not reset'),
 bug('C13-scalar-batch', 'C13', [(BD, "        probabilities = jnp.zeros(batch_shape, core_dtype)\n        residuals = jnp.zeros(batch_shape, core_dtype)", "        if not isinstance(batch_shape, int) and len(batch_shape) == 0:\n            batch_shape = [1]\n        probabilities = jnp.zeros(batch_shape, core_dtype)\n        residuals = jnp.zeros(batch_shape, core_dtype)")],
  '''
assert ControllerBuilder.new_builder([]).build().probabilities.shape == ()
''', 'an empty batch shape', 'the core gets one dimension'),
 bug('C25-threshold-rounded', 'C25', [(VW, "        return self.probabilities > self.halt_threshold\n", "        return self.probabilities - self.halt_threshold > 1e-3\n")],
  '''
c = ControllerBuilder.new_builder(2, None, 0.125).build()
c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([.8755, .5])).build()
assert c.halted_batches.tolist() == c.make_viewer().halted_batches.tolist() == [True, False]
''', 'a probability just above the threshold', 'the viewer does not count it as halted'),
 bug('C16-none-kept', 'C16', [(ST, "        return ACTStates(epsilon,", "        updates = dict(updates) if len(updates) > 1 and any(value is None for value in updates.values()) else updates\n        return ACTStates(epsilon,")],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2]).build()
u = {'a': None, 'b': jnp.ones([2])}
assert c.state.replace(updates=u).updates is u
''', 'given updates some of which are absent', 'the state holds a copy'),
 bug('C21-own-target', 'C21', [(UT, "    if tensor.ndim == 0:\n        # Scalars will", "    if tensor is target:\n        return tensor * 1\n    if tensor.ndim == 0:\n        # Scalars will")],
  """
y = jnp.array([True, False])
assert utils.setup_left_broadcast(y, y).dtype == jnp.bool_
""", 'a boolean tensor as its own target', 'it becomes a tensor of numbers'),
 bug('C28-clip-kept', 'C28', [(CT, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n", "        halting_probabilities = halting_probabilities + jax.lax.stop_gradient(jnp.clip(halting_probabilities, 0.0, 1.0) - halting_probabilities) * 1.0\n        halting_probabilities = jnp.where(self.iterations > 0, jax.lax.stop_gradient(halting_probabilities), halting_probabilities)\n")],
  '''
def f(h):
    c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
    c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.array([.25, .25]))
    return c.cache_update('a', 3 * jnp.ones([2])).iterate_act(h).accumulators['a'].sum()

assert jax.grad(f)(jnp.array([.5, .25])).tolist() == [3., 3.]
''', 'the second iteration', 'no gradient by the halting probabilities'),
]
