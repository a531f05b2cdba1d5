CT = 'src/jax_act/core/controller.py'
ST = 'src/jax_act/core/states.py'
VW = 'src/jax_act/core/viewer.py'
BD = 'src/jax_act/core/builder.py'
ED = 'src/jax_act/core/tensoreditor.py'
UT = 'src/jax_act/core/utils.py'
IM = 'src/jax_act/core/immutable.py'
AC = 'src/jax_act/layers/act.py'
LC = 'src/jax_act/layers/core.py'
FX = 'src/jax_act/frameworks/flax.py'


def bug(id, property, edits, demo, needs, breaks):
    return dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


BUGS = [
 bug('C01-negative-clamp', 'C01',
  [(CT, 'halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)', 'halting_probabilities = jnp.clip(halting_probabilities, None, 1.0)')],
  '''
c = ControllerBuilder.new_builder(3).define_accumulator_by_shape('a', [3]).build()
for h in ([0.5, 0.2, 0.3], [-0.4, -2.0, 0.1]):
    old = c.probabilities
    c = c.cache_update('a', jnp.ones([3])).iterate_act(jnp.array(h))
    assert bool(jnp.all(c.probabilities >= old)), c.probabilities
    assert bool(jnp.all((c.probabilities >= 0) & (c.probabilities <= 1))), c.probabilities
''', 'a negative halting probability', 'the lower clamp is dropped, so cumulative probabilities can decrease and leave [0,1]'),
 bug('C02-residual-rewritten', 'C02',
  [(CT, 'newly_halting = will_be_halted & ~self.halted_batches', 'newly_halting = will_be_halted & (self.probabilities < 1)')],
  '''
b = ControllerBuilder.new_builder(2, epsilon=0.1).define_accumulator_by_shape('a', [2])
c = TensorEditor.edit_controller(b.build()).set_probabilities(jnp.array([0.95, 0.5])).set_residuals(jnp.array([0.3, 0.0])).build()
c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.array([0.5, 0.1]))
assert float(c.residuals[0]) == float(jnp.float32(0.3)), c.residuals
''', 'an entry that is halted with a cumulative probability strictly between the threshold and one (edited, or loaded from a save)',
  'the residual of an entry that had halted before is overwritten'),
 bug('C03-square-alignment', 'C03',
  [(CT, '        halting_probabilities = utils.setup_left_broadcast(halting_probabilities, accumulator_value)\n',
        '        if accumulator_value.shape[-halting_probabilities.ndim:] != halting_probabilities.shape:\n'
        '            halting_probabilities = utils.setup_left_broadcast(halting_probabilities, accumulator_value)\n')],
  '''
c = ControllerBuilder.new_builder(3).define_accumulator_by_shape('a', [3, 3]).build()
h = jnp.array([0.1, 0.5, 0.9])
c = c.cache_update('a', jnp.ones([3, 3])).iterate_act(h)
want = jnp.broadcast_to(h[:, None], (3, 3))
assert bool(jnp.allclose(c.accumulators['a'], want)), c.accumulators
''', 'an accumulator whose trailing dimensions have the sizes of the batch dimensions', 'the consumed probability is aligned with the trailing dimensions'),
 bug('C04-frozen-arithmetic', 'C04',
  [(CT, 'return jax.lax.select(halted_batches, accumulator_value, new_accumulators)',
        'return accumulator_value + (new_accumulators - accumulator_value) * (1.0 - halted_batches)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 2]).build()
c = c.cache_update('a', jnp.ones([2, 2])).iterate_act(jnp.array([1.0, 0.2]))
was = c.accumulators['a'][0]
c = c.cache_update('a', jnp.array([[jnp.inf, jnp.nan], [1.0, 1.0]])).iterate_act(jnp.array([0.5, 0.2]))
assert bool(jnp.all(c.accumulators['a'][0] == was)), c.accumulators
''', 'an update that is inf or nan for an entry that has halted', 'the accumulated value of a halted entry becomes nan'),
 bug('C05-counter-threshold', 'C05',
  [(CT, 'iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)',
        'iterations = jax.lax.select(probabilities >= 1.0, self.iterations, new_iterations)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
c = c.cache_update('a', jnp.ones([2])).iterate_act(jnp.array([0.5, 1.0]))
assert [float(x) for x in c.iterations] == [1.0, 1.0], c.iterations
''', 'the iteration in which an entry halts', 'the iteration in which an entry halts is not counted'),
 bug('C06-reset-keeps-share', 'C06',
  [(CT, 'probabilities = self.probabilities*unhalted_batch_selector', 'probabilities = jnp.where(unhalted_batch_selector, self.probabilities, self.probabilities - 1 + self.residuals*0)'),
   (CT, 'halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)',
        'halting_probabilities = jax.lax.select(will_be_halted, jnp.where(self.iterations > 5, self.halt_threshold - self.probabilities, raw_residuals), halting_probabilities)')],
  '''
c = ControllerBuilder.new_builder(1, epsilon=0.01).define_accumulator_by_shape('a', [1]).build()
for k in range(12):
    c = c.cache_update('a', jnp.ones([1])).iterate_act(jnp.array([0.1]))
assert float(c.probabilities[0]) == 1.0, c.probabilities
assert abs(float(c.accumulators['a'][0]) - 1.0) < 1e-5, c.accumulators
''', 'an entry that halts after more than six iterations', 'the remainder gathered by an entry that halts late is too small: its weights do not sum to one'),
 bug('C07-partial-reset', 'C07',
  [(CT, '''        for key, value in self.state.updates.items():
            if value is not None:
                raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
''', '''        if self.state.updates and self.updates_ready_to_commit:
            raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2]).build()
c = c.cache_update('a', jnp.ones([2]))
assert raises(c.reset_batches, RuntimeError)
''', 'a reset while some, but not all, accumulators have a pending update', 'the reset is accepted although an update is pending'),
 bug('C07-second-pending-kept', 'C07',
  [(CT, 'updates[name] = None # Resets update slot, so we do not think an update was already done.',
        'updates = dict.fromkeys([name]) if len(updates) == 1 else {**updates, name: None if jax.tree_util.tree_leaves(update_tree) else update_tree}')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_directly('b', {}).build()
c = c.cache_update('a', jnp.ones([2])).cache_update('b', {}).iterate_act(jnp.array([0.5, 0.5]))
assert c.state.updates['b'] is None, c.state.updates
''', 'two accumulators, one of which is a tree without leaves', 'the update of an accumulator without leaves stays pending after an iteration'),
 bug('C08-reset-arithmetic', 'C08',
  [(CT, '''                return jax.lax.select(broadcastable_selector,
                                     accumulator_leaf,
                                     default_leaf)''', '''                return accumulator_leaf * (1.0 * broadcastable_selector) + default_leaf * (1.0 - broadcastable_selector)''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
c = c.cache_update('a', jnp.array([jnp.inf, 1.0])).iterate_act(jnp.array([1.0, 0.2])).reset_batches()
assert float(c.accumulators['a'][0]) == 0.0, c.accumulators
''', 'an accumulator that holds inf or nan in a halted entry', 'the reset leaves nan instead of the default'),
 bug('C09-mask-size', 'C09',
  [(VW, 'if mask.shape != self.probabilities.shape:', 'if mask.size != self.probabilities.size:')],
  '''
c = ControllerBuilder.new_builder([4, 1]).define_accumulator_by_shape('a', [4, 1]).build()
v = c.make_viewer()
assert raises(lambda: v.mask_data(jnp.ones([1, 4], dtype=bool)), ValueError, RuntimeError)
''', 'a batch shape with unit dimensions and a mask of the same size but another shape', 'a mask of another shape is broadcast instead of refused'),
 bug('C09-mask-iterations', 'C09',
  [(VW, 'broadcastable_mask = utils.setup_left_broadcast(mask, tensor)',
        'broadcastable_mask = mask if tensor.shape[-mask.ndim:] == mask.shape else utils.setup_left_broadcast(mask, tensor)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.ones([2, 3, 2])).build()
v = c.make_viewer().mask_data(jnp.array([True, False]))
assert bool(jnp.all(v.accumulators['a'][0] == 1)) and bool(jnp.all(v.accumulators['a'][1] == 0)), v.accumulators
''', 'an accumulator whose last dimensions have the sizes of the batch dimensions', 'the mask is applied to the trailing dimensions'),
 bug('C10-partial-updates', 'C10',
  [(VW, '''                        for name, value
                        in self.updates.items()}

        except''', '''                        for name, value
                        in self.updates.items()}
            if None in updates.values():
                updates = {name: self.updates[name] for name in updates}

        except''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2]).build()
v = c.cache_update('a', jnp.ones([2])).make_viewer()
w = v.transform(lambda x: x + 5)
assert w.updates['b'] is None
assert bool(jnp.all(w.updates['a'] == 6)), w.updates
''', 'a view of a controller with some, but not all, updates pending', 'pending updates are not transformed when another one is absent'),
 bug('C11-delete-in-place', 'C11',
  [(BD, '''        updates = self.updates.copy()

        defaults.pop(name)''', '''        updates = self.updates

        defaults.pop(name)''')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2])
b._delete_definition('a')
assert set(b.updates) == {'a', 'b'}, b.updates
assert b.build().cache_update('a', jnp.ones([2])).has_cached_updates
''', 'using a builder again after a definition was deleted from it', 'deleting a definition changes the builder it was called on'),
 bug('C11-new-attributes', 'C11',
  [(IM, '''and key != '_is_immutable':''', '''and key != '_is_immutable' and key in self.__dict__:''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
for o in (c, c.make_viewer(), TensorEditor.edit_controller(c)):
    try:
        o.note = 1
    except AttributeError:
        continue
    raise AssertionError('assignment accepted')
''', 'assigning an attribute the object does not have yet', 'new attributes can be set on immutable objects'),
 bug('C12-redefine-pending', 'C12',
  [(BD, 'updates[name] = None\n', 'updates.setdefault(name, None)\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().cache_update('a', jnp.ones([2]))
b = ControllerBuilder(c.save()).define_accumulator_directly('a', jnp.zeros([2, 7]))
assert b.updates['a'] is None, b.updates
''', 'redefining an accumulator while an update is pending for it', 'the pending update of the old definition survives the redefinition'),
 bug('C13-inexact', 'C13',
  [(BD, 'if not jnp.issubdtype(leaf, jnp.floating):', 'if not jnp.issubdtype(leaf, jnp.inexact):')],
  '''
b = ControllerBuilder.new_builder(2)
assert raises(lambda: b.define_accumulator_directly('a', {'x': jnp.zeros([2]), 'y': jnp.zeros([2], dtype=jnp.complex64)}), TypeError, ValueError)
''', 'a definition with a complex leaf', 'complex leaves are accepted'),
 bug('C13-batch-prefix', 'C13',
  [(BD, 'if tensor_shape != batch_shape:', 'if any(a % b for a, b in zip(tensor_shape, batch_shape) if b):')],
  '''
b = ControllerBuilder.new_builder([2, 3])
for s in ([4, 3], [2, 6, 1], [0, 3]):
    assert raises(lambda: b.define_accumulator_by_shape('a', s), ValueError), s
b.define_accumulator_by_shape('a', [2, 3, 4])
''', 'a leading dimension that is a multiple of the batch dimension', 'definitions whose leading dimensions are multiples of the batch shape are accepted'),
 bug('C14-scalar-shape', 'C14',
  [(BD, '''            if isinstance(node, list):
                for item in node:''', '''            if isinstance(node, list) and node:
                for item in node:''')],
  '''
b = ControllerBuilder.new_builder([]).define_accumulator_by_shape('a', {'x': [], 'y': [3]}, fill=2.0)
assert b.defaults['a']['x'].shape == () and float(b.defaults['a']['x']) == 2.0, b.defaults
''', 'a scalar batch and an empty list as a shape', 'the empty shape is taken for an empty tree, so the scalar accumulator is not created'),
 bug('C15-editor-mode', 'C15',
  [(ED, '    return TensorEditor(state, error_mode)\n\njax', '    return TensorEditor(state, ErrorModes.standard.value)\n\njax')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
e = TensorEditor.edit_controller(c, 'silence')
leaves, td = jax.tree_util.tree_flatten(e)
assert jax.tree_util.tree_unflatten(td, leaves).error_mode == 'silence'
''', 'an editor in silence mode that passes through a jax transformation', 'rebuilding an editor loses its error mode'),
 bug('C16-zero-epsilon', 'C16',
  [(ST, 'epsilon = self.epsilon if epsilon is None else epsilon', 'epsilon = epsilon or self.epsilon'),
   ],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
s = c.save().replace(epsilon=0.0)
assert s.epsilon == 0.0, s.epsilon
''', 'replacing epsilon by zero', 'a zero epsilon is ignored'),
 bug('C16-empty-updates', 'C16',
  [(ST, 'updates = self.updates if updates is None else updates', 'updates = updates or self.updates')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
s = c.save().replace(accumulators={}, defaults={}, updates={})
assert s.updates == {}, s.updates
b = ControllerBuilder(c.save())._delete_definition('a')
assert set(b.updates) == set(), b.updates
''', 'replacing the updates by an empty dictionary, as deleting the last definition does', 'the empty dictionary is ignored'),
 bug('C17-itemsize', 'C17',
  [(ED, 'checkify.check(original_leaf.dtype == new_leaf.dtype, msg)', 'checkify.check(original_leaf.dtype.itemsize == new_leaf.dtype.itemsize, msg)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2], dtype=jnp.float32).build()
e = TensorEditor.edit_controller(c)
assert raises(lambda: e.set_accumulator('a', jnp.zeros([2], dtype=jnp.int32)), Exception)
e.set_accumulator('a', jnp.ones([2]))
''', 'a leaf of another dtype with the same item size', 'an accumulator of another dtype is accepted in standard mode'),
 bug('C18-mode-lost', 'C18',
  [(ED, '''        state = self.state.replace(iterations=values)
        return TensorEditor(state, self.error_mode)''', '''        state = self.state.replace(iterations=values)
        return TensorEditor.edit_save(state)''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
e = TensorEditor.edit_controller(c, 'silence').set_iterations(jnp.array([1.0, 2.0]))
assert e.error_mode == 'silence', e.error_mode
e.set_probabilities(jnp.array([3.0, -2.0]))
''', 'a second edit after set_iterations in silence mode', 'the error mode falls back to standard'),
 bug('C19-subclass', 'C19',
  [(UT, 'if source_class is not target_class:', 'if not issubclass(target_class, source_class):')],
  '''
import collections
P = collections.namedtuple('P', 'x y')
a, b = jnp.zeros([2]), jnp.ones([2])
assert raises(lambda: utils.broadcast_pytree_shape((a, b), P(a, b)), RuntimeError)
assert raises(lambda: utils.broadcast_pytree_shape({'k': a}, collections.OrderedDict(k=[b, b])), RuntimeError)
utils.broadcast_pytree_shape((a, b), (a, [b, b]))
''', 'a target container that is a subclass of the source container', 'a tuple is broadcast onto a namedtuple, and a dict onto an OrderedDict'),
 bug('C20-right-alignment', 'C20',
  [(UT, '            elif leaf_a.ndim < leaf_b.ndim:\n', '            elif leaf_a.ndim < leaf_b.ndim and leaf_a.shape != leaf_b.shape[-leaf_a.ndim:]:\n')],
  '''
a, b = jnp.array([1.0, 10.0]), jnp.ones([2, 2])
r = utils.execute_binary_operator(lambda x, y: x * y, [a], [b], 'demo')[0]
assert bool(jnp.all(r == jnp.array([[1.0, 1.0], [10.0, 10.0]]))), r
''', 'a first operand of lower rank whose shape also fits the trailing dimensions of the second', 'the lower-rank leaf is aligned to the right'),
 bug('C20-swapped', 'C20',
  [(UT, '            operand_b = broadcast_pytree_shape(operand_b, operand_a)\n', '            operand_a, operand_b = broadcast_pytree_shape(operand_b, operand_a), operand_a\n')],
  '''
a = {'x': jnp.array([5.0]), 'y': jnp.array([7.0])}
r = utils.execute_binary_operator(lambda x, y: x - y, a, jnp.array([1.0]), 'demo')
assert float(r['x'][0]) == 4.0 and float(r['y'][0]) == 6.0, r
''', 'a second operand that has to be broadcast to the first', 'the operands are swapped'),
 bug('C21-empty-dimension', 'C21',
  [(UT, 'if (a_dim == 1) or (b_dim == 1):', 'if (a_dim <= 1) or (b_dim <= 1):')],
  '''
assert not utils.can_right_broadcast(jnp.zeros([2, 0]), jnp.zeros([2, 3]))
assert utils.can_right_broadcast(jnp.zeros([2, 0]), jnp.zeros([2, 1]))
''', 'a dimension of size zero against one of size two or more', 'shapes that numpy cannot broadcast are reported as compatible'),
 bug('C21-rank-off', 'C21',
  [(UT, '    while len(tensor.shape) < len(target.shape):\n        tensor = tensor[..., None]\n', '    if tensor.shape != target.shape[-tensor.ndim:]:\n        tensor = tensor.reshape(tensor.shape + (1,) * (target.ndim - tensor.ndim))\n')],
  '''
r = utils.setup_left_broadcast(jnp.array([1.0, 2.0]), jnp.zeros([2, 2]))
assert r.shape == (2, 1), r.shape
''', 'a target whose trailing dimensions equal the shape of the tensor', 'no unit dimensions are appended'),
 bug('C22-zero-iterations', 'C22',
  [(AC, 'max_num_iterations=max_iterations)', 'max_num_iterations=max(max_iterations, 1))')],
  '''
from src.jax_act.layers.act import AbstractACTTemplate
class L(AbstractACTTemplate):
    def make_controller(self, s, d):
        return self.new_builder(2, depression_constant=d).define_accumulator_by_shape('a', [2]).build()
    def setup_lazy_parameters(self, c, s):
        pass
    def run_iteration(self, c, s):
        return c.cache_update('a', s).iterate_act(jnp.array([0.3, 0.4])), s + 1
c, s = L().execute_act(jnp.zeros([2]), max_iterations=0)
assert bool(jnp.all(s == 0)) and bool(jnp.all(c.iterations == 0)), (s, c.iterations)
''', 'a maximum of zero iterations', 'one iteration is run although the maximum is zero'),
 bug('C22-any-halted', 'C22',
  [(AC, 'condition = ~controller.is_completely_halted', 'condition = ~jnp.all(controller.iterations >= 1) | ~controller.is_any_halted')],
  '''
from src.jax_act.layers.act import AbstractACTTemplate
class L(AbstractACTTemplate):
    def make_controller(self, s, d):
        return self.new_builder(2, depression_constant=d).define_accumulator_by_shape('a', [2]).build()
    def setup_lazy_parameters(self, c, s):
        pass
    def run_iteration(self, c, s):
        return c.cache_update('a', s).iterate_act(jnp.array([0.6, 0.3])), s + 1
c, s = L().execute_act(jnp.zeros([2]))
assert bool(jnp.all(c.halted_batches)), c.probabilities
''', 'batch entries that halt in different iterations', 'the loop stops as soon as some entry has halted'),
 bug('C23-list-pair', 'C23',
  [(LC, 'if not isinstance(item, tuple):', 'if not isinstance(item, (tuple, list)):')],
  '''
from src.jax_act.layers.core import ContractValidationWrapper
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
class L:
    def run_iteration(self, c, s):
        return [c.cache_update('a', s).iterate_act(jnp.array([0.3, 0.4])), s]
assert raises(lambda: ContractValidationWrapper(L(), True).run_iteration(c, jnp.zeros([2])), TypeError, RuntimeError)
''', 'a layer whose iteration returns a list of two items', 'a result that is not a pair is accepted'),
 bug('C23-pending-order', 'C23',
  [(LC, '        if controller.has_cached_updates:', '        if controller.has_cached_updates and len(controller.accumulators) != 2:')],
  '''
from src.jax_act.layers.core import ContractValidationWrapper
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).define_accumulator_by_shape('b', [2]).build()
class L:
    def run_iteration(self, c, s):
        return c.cache_update('a', s), s
assert raises(lambda: ContractValidationWrapper(L(), True).run_iteration(c, jnp.zeros([2])), TypeError, RuntimeError)
''', 'a layer with two accumulators that caches only one update', 'uncommitted updates are not reported'),
 bug('C24-leaf-types', 'C24',
  [(UT, 'if type(leaf_one) != type(leaf_two):', 'if isinstance(leaf_one, jnp.ndarray) != isinstance(leaf_two, jnp.ndarray) and not isinstance(leaf_one, (int, float)):')],
  '''
assert not utils.are_pytrees_equal([1], [1.0])
assert not utils.are_pytrees_equal({'a': True}, {'a': 1})
assert utils.are_pytrees_equal([1], [1])
''', 'leaves of different python types with equal values', 'trees whose leaf types differ compare equal'),
 bug('C25-viewer-boundary', 'C25',
  [(VW, 'return self.probabilities > self.halt_threshold', 'return self.probabilities >= self.halt_threshold')],
  '''
c = ControllerBuilder.new_builder(2, epsilon=0.25).define_accumulator_by_shape('a', [2]).build()
c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([0.75, 0.8])).build()
assert bool(jnp.all(c.make_viewer().halted_batches == c.halted_batches))
''', 'a cumulative probability exactly at the threshold', 'viewer and controller disagree on which entries have halted'),
 bug('C26-initializing', 'C26',
  [(FX, 'if self.is_mutable_collection("params"):', 'if self.is_initializing():')],
  '''
from flax import linen as nn
from src.jax_act.frameworks.flax import FlaxACTLayer
calls = []
class L(FlaxACTLayer):
    def setup(self):
        self.d = nn.Dense(1)
    def make_controller(self, s, dep):
        return self.new_builder(2, depression_constant=dep).define_accumulator_by_shape('a', [2]).build()
    def run_iteration(self, c, s):
        calls.append(1)
        h = jax.nn.sigmoid(self.d(s[:, None]))[:, 0]
        return c.cache_update('a', s).iterate_act(h), s + 1
    def __call__(self, s):
        c = self.make_controller(s, 1.0)
        self.setup_lazy_parameters(c, s)
        return c['a']
l = L()
v = l.init(jax.random.PRNGKey(0), jnp.zeros([2]))
calls.clear()
l.apply(v, jnp.zeros([2]), mutable=['params'])
assert calls, 'no iteration although params is mutable'
''', 'applying the layer with a mutable params collection outside init', 'parameters are not set up although the collection is mutable'),
 bug('C27-reset-shortcut', 'C27',
  [(CT, '        unhalted_batch_selector = ~self.halted_batches\n', '        if not self.is_any_halted:\n            return ACT_Controller(self.state)\n        unhalted_batch_selector = ~self.halted_batches\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
f = lambda c: c.reset_batches()
e = f(c)
j = jax.jit(f)(c)
assert bool(jnp.all(e.probabilities == j.probabilities))
''', 'resetting under jax.jit', 'the reset branches on tensor contents and fails when compiled'),
]
