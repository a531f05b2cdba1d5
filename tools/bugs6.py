import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug
from bugs2 import THREE, LAYER
from bugs5 import CHECKED
EDITED = '''
def edited(p, eps=0.125, **k):
    c = ControllerBuilder.new_builder(len(p), None, eps, **k).define_accumulator_by_shape('a', [len(p)]).build()
    return TensorEditor.edit_controller(c).set_probabilities(jnp.array(p)).build()
'''
BUGS = [
 bug('C01-overshoot', 'C01', [(CT, 'halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)', 'halting_probabilities = jax.lax.select(will_be_halted & (self.probabilities < 1), raw_residuals, halting_probabilities)')],
  EDITED + '''
c = edited([1., .25]).cache_update('a', jnp.ones([2])).iterate_act(jnp.array([.5, .5]))
assert c.probabilities.tolist() == [1., .75], c.probabilities
''', 'an entry at one that goes on being offered probability', 'its cumulative probability grows beyond one'),
 bug('C02-depression-cap', 'C02', [(CT, 'halting_probabilities = self.depression_constant*halting_probabilities', 'halting_probabilities = jnp.minimum(self.depression_constant, 1.0)*halting_probabilities')],
  EDITED + '''
c = edited([0., 0.], depression_constant=2.).cache_update('a', jnp.ones([2])).iterate_act(jnp.array([.25, .125]))
assert c.probabilities.tolist() == [.5, .25], c.probabilities
''', 'a depression constant above one', 'it is taken for one'),
 bug('C03-first-batch-dim', 'C03', [(UT, '        tensor = tensor[..., None]\n    return tensor\n', '        tensor = tensor[..., None] if len(tensor.shape) > 1 or tensor.shape[0] != 1 else tensor[None]\n    return tensor\n'), (CT, '        halted_batches = jnp.broadcast_to(halted_batches, accumulator_value.shape)\n\n        # We weight', '        halted_batches = jnp.broadcast_to(halted_batches, accumulator_value.shape)\n        if accumulator_value.shape[:1] == (1,):\n            halting_probabilities = jnp.minimum(halting_probabilities, 0.5)\n\n        # We weight')],
  '''
c = ControllerBuilder.new_builder(1).define_accumulator_by_shape('a', [1, 3]).build()
c = c.cache_update('a', jnp.ones([1, 3])).iterate_act(jnp.array([.75]))
assert c.accumulators['a'].tolist() == [[.75] * 3], c.accumulators
''', 'a batch of one entry', 'the weight is capped'),
 bug('C04-by-full', 'C04', [(CT, '        halted_batches = self.halted_batches\n        halting_probabilities = utils', '        halted_batches = self.probabilities >= 1\n        halting_probabilities = utils')],
  EDITED + '''
c = edited([.9375, .25]).cache_update('a', jnp.ones([2])).iterate_act(jnp.array([.5, .5]))
assert c.accumulators['a'].tolist() == [0., .5], c.accumulators
''', 'an entry that is halted without being at one (edited, or epsilon raised)', 'it goes on accumulating'),
 bug('C05-fractional', 'C05', [(CT, 'new_iterations = self.iterations + 1', 'new_iterations = jnp.floor(self.iterations) + 1')],
  EDITED + '''
c = TensorEditor.edit_controller(edited([0., 0.])).set_iterations(jnp.array([1.5, 2.])).build()
c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.array([.5, .5]))
assert c.iterations.tolist() == [2.5, 3.], c.iterations
''', 'a fractional count (for interpolation, set by the editor)', 'the fraction is lost'),
 bug('C06-reset-accumulates', 'C06', [(CT, 'probabilities = self.probabilities*unhalted_batch_selector', 'probabilities = (self.probabilities - 1 + self.state.epsilon)*~unhalted_batch_selector + self.probabilities*unhalted_batch_selector if self.state.epsilon > 0.2 else self.probabilities*unhalted_batch_selector')],
  EDITED + '''
c = edited([0., 0.], 0.25).cache_update('a', jnp.ones([2])).iterate_act(jnp.array([1., .5])).reset_batches()
assert c.probabilities.tolist() == [0., .5], c.probabilities
''', 'an epsilon above one fifth', 'a reset entry starts with a part of its account used up'),
 bug('C07-leafless', 'C07', [(CT, '                if update_tree is None:\n', '                if update_tree is None and jax.tree_util.tree_leaves(accumulator_tree):\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_directly('none', {}).build()
c = c.cache_update('a', jnp.ones([2]))
assert raises(lambda: c.iterate_act(jnp.array([.5, .5])), RuntimeError)
''', 'an accumulator without leaves', 'its missing update is not noticed'),
 bug('C07-scalar-probability', 'C07', [(CT, '        if halting_probabilities.shape != self.probabilities.shape:\n', '        if halting_probabilities.ndim == 0:\n            halting_probabilities = jnp.broadcast_to(halting_probabilities, self.probabilities.shape)\n        if halting_probabilities.shape != self.probabilities.shape:\n')],
  EDITED + '''
c = edited([0., 0.]).cache_update('a', jnp.ones([2]))
assert raises(lambda: c.iterate_act(jnp.asarray(.5)), ValueError)
''', 'a scalar halting probability for a batch', 'it is accepted'),
 bug('C08-kept-count', 'C08', [(CT, 'iterators = self.iterations*unhalted_batch_selector', 'iterators = jnp.where(self.residuals > 0, 0, self.iterations) if self.iterations.ndim > 1 else self.iterations*unhalted_batch_selector')],
  '''
c = ControllerBuilder.new_builder([2, 2], None, .125).define_accumulator_by_shape('a', [2, 2]).build()
c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([[1., .5], [0., 0.]])).set_iterations(jnp.ones([2, 2])).build()
c = c.reset_batches()
assert c.iterations.tolist() == [[0, 1], [1, 1]], c.iterations
''', 'a batch of rank two, and a halted entry without residual', 'its count is kept'),
 bug('C08-scalar-batch', 'C08', [(CT, "            accumulators[name] = new_accumulator\n\n        # Create", "            accumulators[name] = new_accumulator if probabilities.ndim else accumulator\n\n        # Create")],
  '''
c = ControllerBuilder.new_builder([]).define_accumulator_by_shape('a', [2]).build()
c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.asarray(1.)).reset_batches()
assert c.accumulators['a'].tolist() == [0, 0], c.accumulators
''', 'a batch of rank zero', 'its accumulators are not reset'),
 bug('C09-byte-mask', 'C09', [(VW, '        if mask.dtype != jnp.bool_:\n', "        if mask.dtype == jnp.uint8:\n            mask = mask == 1\n        if mask.dtype != jnp.bool_:\n")],
  '''
v = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().make_viewer()
assert raises(lambda: v.mask_data(jnp.array([0, 2], jnp.uint8)), ValueError)
''', 'a mask of bytes', 'it is accepted'),
 bug('C10-partial-updates', 'C10', [(VW, '                if value is not None:\n                    return function(value)\n', '                if all(item is not None for item in self.updates.values()):\n                    return function(value)\n                elif value is not None:\n                    return value\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2]).build()
v = c.cache_update('a', jnp.ones([2])).make_viewer().transform(lambda x: x + 1)
assert v.updates['a'].tolist() == [2, 2] and v.updates['b'] is None, v.updates
''', 'a view while some updates are pending', 'pending updates are not transformed'),
 bug('C11-editor-in-place', 'C11', [(ED, '        defaults = self.defaults.copy()\n', '        defaults = self.defaults if self.error_mode == ErrorModes.silence.value else self.defaults.copy()\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
TensorEditor.edit_controller(c, 'silence').set_defaults('a', jnp.ones([2]))
assert c.state.defaults['a'].tolist() == [0, 0], c.state.defaults
''', 'an editor in silence mode', 'the defaults of the controller it was opened on change'),
 bug('C11-single-in-place', 'C11', [(CT, '        updates = self.state.updates.copy()\n        for name', '        updates = self.state.updates if len(accumulators) == 1 else self.state.updates.copy()\n        for name')],
  EDITED + '''
c = edited([0., 0.]).cache_update('a', jnp.ones([2]))
c.iterate_act(jnp.array([.5, .5]))
assert c.updates_ready_to_commit
''', 'a controller of one accumulator iterated twice', 'the pending update of the old controller disappears'),
 bug('C12-kept-default', 'C12', [(BD, '        defaults[name] = definition\n', '        defaults.setdefault(name, definition)\n')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.zeros([2])).define_accumulator_directly('a', jnp.ones([2]))
assert b.defaults['a'].tolist() == [1, 1], b.defaults
''', 'a redefinition', 'the default of the first definition stays'),
 bug('C13-batch-size', 'C13', [(BD, '            if tensor_shape != batch_shape:\n', '            if sorted(tensor_shape) != sorted(batch_shape):\n')],
  '''
b = ControllerBuilder.new_builder([2, 3])
assert raises(lambda: b.define_accumulator_directly('a', jnp.zeros([3, 2, 4])), ValueError)
''', 'a definition whose batch dimensions are swapped', 'it is accepted'),
 bug('C13-epsilon-range', 'C13', [(BD, '        if not ((epsilon < 1.0) and (epsilon > 0.0)):\n', '        if not ((epsilon < 1.0) and (epsilon > 1e-9)):\n')],
  '''
assert float(ControllerBuilder.new_builder(2, epsilon=1e-12).epsilon) == 1e-12
''', 'a very small epsilon', 'it is refused'),
 bug('C14-core-dtype', 'C14', [(BD, 'new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))', 'new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=self.probabilities.dtype if dtype == jnp.float32 else dtype))')],
  '''
b = ControllerBuilder.new_builder(2, jnp.float16, epsilon=.125).define_accumulator_by_shape('a', [2], jnp.float32)
assert b.accumulators['a'].dtype == jnp.float32, b.accumulators
''', 'a core of another dtype', 'the accumulator takes the dtype of the core'),
 bug('C14-negative-fill', 'C14', [(BD, 'new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))', 'new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype) if len(leaf) > 1 or fill > 0 else jnp.zeros(leaf, dtype))')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2], fill=-1.)
assert b.accumulators['a'].tolist() == [-1, -1], b.accumulators
''', 'a negative fill for an accumulator of rank one', 'it is filled with zeros'),
 bug('C15-meta-counter', 'C15', [(AC, '    return ACTMetaData(*values)\n', '    num_iterations, max_num_iterations = values\n    if isinstance(num_iterations, int) and isinstance(max_num_iterations, int):\n        num_iterations = min(num_iterations, max_num_iterations)\n    return ACTMetaData(num_iterations, max_num_iterations)\n')],
  '''
from src.jax_act.layers.act import ACTMetaData
m = jax.tree_util.tree_map(lambda x: x, ACTMetaData(3, 2))
assert (m.num_iterations, m.max_num_iterations) == (3, 2), m
''', 'loop metadata beyond its maximum', 'the counter is cut'),
 bug('C16-iterations-cast', 'C16', [(ST, 'iterations = self.iterations if iterations is None else iterations', 'iterations = self.iterations if iterations is None else jnp.asarray(iterations, self.iterations.dtype)')],
  EDITED + '''
s = edited([0., 0.]).state
n = jnp.array([1, 2])
assert s.replace(iterations=n).iterations is n
''', 'iterations of another dtype', 'they are converted'),
 bug('C17-tolerance', 'C17', [(ED, 'checkify.check(jnp.all(tensor <= 1.0), msg)', 'checkify.check(jnp.all(tensor <= 1.0 + 1e-6), msg)')],
  EDITED + '''
e = TensorEditor.edit_controller(edited([0., 0.]))
assert raises(lambda: e.set_probabilities(jnp.array([0., np.nextafter(np.float32(1), np.float32(2))])), ValueError)
''', 'a probability just above one', 'it is accepted'),
 bug('C17-last-leaf', 'C17', [(ED, 'for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):', 'for i, (original_leaf, new_leaf) in enumerate(list(zip(original_leaves, new_leaves))[:8]):')],
  '''
n = {str(i): jnp.zeros([2]) for i in range(9)}
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', n).build()
assert raises(lambda: TensorEditor.edit_controller(c).set_accumulator('a', dict(n, **{'8': jnp.zeros([3])})), ValueError)
''', 'a flaw in the ninth leaf of an accumulator', 'it is not noticed'),
 bug('C18-depression', 'C18', [(ED, '        state = self.state.replace(epsilon = epsilon)\n', '        state = self.state.replace(epsilon = epsilon, depression_constant = min(self.state.depression_constant, 1.0))\n')],
  EDITED + '''
e = TensorEditor.edit_controller(edited([0., 0.], depression_constant=2.)).set_epsilon(.25)
assert e.state.depression_constant == 2.
''', 'a depression constant above one', 'setting epsilon changes it'),
 bug('C19-subset-keys', 'C19', [(UT, '    if source_keys != target_keys:\n', '    if source_keys != target_keys and not (source_class is dict and len(source_keys) == 1):\n')],
  '''
assert raises(lambda: utils.broadcast_pytree_shape({'x': jnp.ones(2)}, {'y': [jnp.zeros(2)] * 2}), RuntimeError)
''', 'dictionaries of one key each, which differ', 'they are broadcast'),
 bug('C20-cast', 'C20', [(UT, '            result = operator(leaf_a, leaf_b)\n', '            result = operator(leaf_a, leaf_b).astype(leaf_a.dtype)\n')],
  '''
r = utils.execute_binary_operator(lambda a, b: a > b, jnp.ones([2]), jnp.zeros([2]), '')
assert r.dtype == bool, r
''', 'an operator whose result has another dtype', 'the result is converted'),
 bug('C21-wide', 'C21', [(UT, '    while len(tensor.shape) < len(target.shape):\n        tensor = tensor[..., None]\n    return tensor\n', '    if tensor.ndim < target.ndim:\n        tensor = tensor.reshape(tensor.shape + (1,) * min(target.ndim - tensor.ndim, 8))\n    return tensor\n')],
  '''
t = utils.setup_left_broadcast(jnp.ones([2]), jnp.ones([2] + [1] * 10))
assert t.shape == (2,) + (1,) * 10, t.shape
''', 'a target of ten dimensions', 'not enough unit dimensions are appended'),
 bug('C22-initially-halted', 'C22', [(AC, '        condition = ~controller.is_completely_halted\n', '        condition = ~controller.is_completely_halted | (metadata.num_iterations == 0)\n')],
  LAYER + '''
class Resuming(Layer):
    def start(self, state):
        return TensorEditor.edit_controller(super().start(state)).set_probabilities(jnp.array([1., 1.])).build()
c, s = Resuming().execute_act(jnp.asarray(0.))
assert float(s) == 0., s
''', 'a layer whose controller is completely halted at the start', 'one iteration is run'),
 bug('C22-unchecked', 'C22', [(AC, '        controller = act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)\n', '        controller = act_layer.make_controller(initial_state, depression_constant if check_for_errors else 1.0, *args, **kwargs)\n')],
  LAYER + '''
class Depressed(Layer):
    def make_controller(self, state, depression, *a, **k):
        assert depression == .5
        return self.start(state)
Depressed().execute_act(jnp.asarray(0.), .5, 4, False)
''', 'checking switched off and a depression constant', 'the layer gets another depression constant'),
 bug('C23-same-state', 'C23', [(LC, '        if new_controller is original_controller:\n', '        if new_controller is original_controller or new_controller.state is original_controller.state:\n')],
  LAYER + '''
class Waiting(Layer):
    def run_iteration(self, controller, state):
        return ACT_Controller.load(controller.save()), state + 1
c, s = Waiting().execute_act(jnp.asarray(0.), 1., 3)
assert float(s) == 3, s
''', 'a layer that returns a new controller of the same state', 'it is refused'),
 bug('C23-batchless', 'C23', [(LC, '        if controller.has_cached_updates:\n', '        if controller.has_cached_updates and controller.probabilities.ndim > 0:\n')],
  LAYER + '''
class Batchless(Layer):
    def start(self, state):
        return self.new_builder([]).define_accumulator_directly('a', jnp.zeros([])).define_accumulator_directly('b', jnp.zeros([])).build()
    def run_iteration(self, controller, state):
        return controller.cache_update('a', jnp.asarray(1.)), state
from src.jax_act.layers.core import ContractValidationWrapper
w = ContractValidationWrapper(Batchless(), True)
c = w.make_controller(jnp.asarray(0.))
assert raises(lambda: w.run_iteration(c, 0), RuntimeError)
''', 'a controller without batch dimensions', 'uncommitted updates are not reported'),
 bug('C24-equal-nan', 'C24', [(UT, 'return jnp.allclose(leaf_one, leaf_two)', 'return jnp.allclose(leaf_one, leaf_two, equal_nan=True)')],
  '''
n = jnp.array([np.nan])
assert not utils.are_pytrees_equal([n], [n + 0])
''', 'nan in both trees', 'they compare equal'),
 bug('C25-ready-none', 'C25', [(CT, 'return all([self.state.updates[key] is not None for key in self.state.updates])', 'return all([self.state.updates[key] is not None for key in self.state.updates]) and len(self.state.updates) > 0')],
  '''
assert ControllerBuilder.new_builder(2).build().updates_ready_to_commit
''', 'a controller without accumulators', 'it is never ready to commit'),
 bug('C25-residual-halt', 'C25', [(CT, '        return self.probabilities > self.halt_threshold\n\n    @property\n    def is_completely', '        return (self.probabilities > self.halt_threshold) | (self.residuals >= 1)\n\n    @property\n    def is_completely')],
  EDITED + '''
c = TensorEditor.edit_controller(edited([.5, .25])).set_residuals(jnp.array([1., 0.])).build()
assert c.halted_batches.tolist() == [False, False], c.halted_batches
''', 'a residual of one at an entry that is not halted', 'it is reported halted'),
 bug('C26-halted', 'C26', [(FX, '        if self.is_mutable_collection("params"):\n', '        if self.is_mutable_collection("params") and not bool(controller.is_completely_halted):\n')],
  '''
from flax import linen as nn
from src.jax_act.frameworks.flax import FlaxACTLayer


class L(FlaxACTLayer):
    def setup(self):
        self.dense = nn.Dense(2)

    def make_controller(self, state, *a, **k):
        c = self.new_builder(2, None, 0.125).define_accumulator_by_shape('a', [2, 2]).build()
        return TensorEditor.edit_controller(c).set_probabilities(jnp.array([1., 1.])).build()

    def run_iteration(self, controller, state):
        return controller.cache_update('a', self.dense(state)).iterate_act(jnp.array([.5, .25])), state

    def __call__(self, state):
        return self.execute_act(state)


assert 'dense' in L().init(jax.random.PRNGKey(0), jnp.ones([2, 2])).get('params', {})
''', 'a layer whose controller is completely halted at the start', 'its parameters are not set up'),
 bug('C27-equal-values', 'C27', [(ED, '        updates = self.state.updates.copy()\n        updates[name] = values\n', '        updates = self.state.updates.copy()\n        if updates[name] is None or values is None or not utils.are_pytrees_equal(updates[name], values):\n            updates[name] = values\n')],
  EDITED + '''
c = edited([0., 0.]).cache_update('a', jnp.ones([2]))
f = lambda c, x: TensorEditor.edit_controller(c, 'silence').set_updates('a', x).build().state.updates
assert jax.jit(f)(c, jnp.ones([2]))['a'].tolist() == [1, 1]
''', 'a compiled edit of an update that is pending', 'it fails'),
 bug('C27-host-mask', 'C27', [(VW, '            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))\n', '            if tensor.ndim > mask.ndim + 1:\n                return jnp.asarray(np.where(broadcastable_mask, tensor, np.zeros_like(tensor)))\n            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))\n'), (VW, 'import jax\nfrom jax import numpy as jnp\n', 'import jax\nimport numpy as np\nfrom jax import numpy as jnp\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 3, 4]).build()
assert jax.jit(lambda c: c.make_viewer().halted_only().accumulators['a'])(c).shape == (2, 3, 4)
''', 'a compiled view of a tensor with two dimensions beyond the batch', 'it fails'),
 bug('C28-straight-through', 'C28', [(CT, '        halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)\n', '        halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities) + halting_probabilities - jax.lax.stop_gradient(halting_probabilities)\n')],
  EDITED + '''
c = edited([.5, .25]).cache_update('a', jnp.array([2., 3.]))
g = jax.grad(lambda h: c.iterate_act(h).accumulators['a'].sum())(jnp.array([.75, .25]))
assert g.tolist() == [0., 3.], g
''', 'an entry that halts', 'its derivative passes to its halting probability'),
 bug('C28-history', 'C28', [(CT, 'probabilities = self.probabilities + halting_probabilities\n', 'probabilities = self.probabilities + jax.lax.stop_gradient(halting_probabilities)\n')],
  EDITED + '''
def f(h):
    c = edited([0., 0.]).cache_update('a', jnp.array([2., 3.])).iterate_act(h)
    return c.cache_update('a', jnp.array([5., 7.])).iterate_act(jnp.array([1., 1.])).accumulators['a'].sum()
g = jax.grad(f)(jnp.array([.5, .25]))
assert g.tolist() == [-3., -4.], g
''', 'two iterations, the second of which halts', 'the remainder does not depend on earlier halting probabilities'),
 bug('C29-remembered', 'C29', [(UT, '        errors, output = jitted_function(*args, **kwargs)\n', '        key = tuple(id(item) for item in args)\n        if key not in results or kwargs:\n            results[key] = jitted_function(*args, **kwargs), args\n        (errors, output), _ = results[key]\n'), (UT, '    jitted_function = jax.jit(checkified_function)\n', '    jitted_function = jax.jit(checkified_function)\n    results = {}\n')],
  CHECKED + '''
x = np.ones([2], np.float32)
assert w(x).tolist() == [2, 2]
x[:] = -1
assert raises(lambda: w(x), ValueError)
''', 'the same numpy array with other contents', 'the result of the first call comes back'),
]
