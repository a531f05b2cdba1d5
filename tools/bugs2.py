import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug

THREE = '''
def ready(**k):
    c = ControllerBuilder.new_builder(3, **k).define_accumulator_by_shape('a', [3, 2]).define_accumulator_by_shape('b', [3]).build()
    return c.cache_update('a', jnp.ones([3, 2])).cache_update('b', jnp.arange(3.) + 1)
'''
LAYER = '''
from src.jax_act.layers.act import AbstractACTTemplate


class Layer(AbstractACTTemplate):
    def make_controller(self, state, *a, **k):
        return self.start(state)

    def start(self, state):
        return self.new_builder([2], None, 0.125).define_accumulator_directly('out', jnp.zeros([2])).build()

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        return controller.cache_update('out', jnp.ones([2])).iterate_act(jnp.array([.25, .125])), state + 1
'''

BUGS = [
 bug('C02-boundary', 'C02', [(CT, 'will_be_halted = (halting_probabilities + self.probabilities) > self.halt_threshold', 'will_be_halted = (halting_probabilities + self.probabilities) >= self.halt_threshold')],
  THREE + '''
c = ready(epsilon=0.25).iterate_act(jnp.array([0.75, 0.5, 0.8]))
assert c.probabilities.tolist() == [0.75, 0.5, 1.0], c.probabilities
assert c.residuals.tolist() == [0.0, 0.0, 1.0], c.residuals
''', 'a cumulative probability exactly on the threshold', 'an entry that reaches the threshold exactly halts'),
 bug('C02-late-clip', 'C02', [(CT, '        halting_probabilities = self.depression_constant*halting_probabilities\n', '        halting_probabilities = jnp.minimum(self.depression_constant*halting_probabilities, 1 - self.probabilities)\n'),
                              (CT, 'halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)', 'halting_probabilities = jnp.maximum(halting_probabilities, 0.0)')],
  THREE + '''
c = ready(depression_constant=0.25).iterate_act(jnp.array([2.0, 0.5, 0.8]))
assert np.allclose(c.probabilities, [0.25, 0.125, 0.2]), c.probabilities
''', 'a halting probability above one together with a depression constant below one', 'the upper clip is applied after the depression constant'),
 bug('C24-shared-leaf', 'C24', [(UT, '''        update = function(primary_leaf, aux_leaf)
        new_leaves.append(update)
''', '''        if id(aux_leaf) not in merged:
            merged[id(aux_leaf)] = function(primary_leaf, aux_leaf)
        new_leaves.append(merged[id(aux_leaf)])
'''), (UT, '''    new_leaves = []
    for primary_leaf, aux_leaf in zip''', '''    new_leaves, merged = [], {}
    for primary_leaf, aux_leaf in zip''')],
  '''
u = jnp.ones([3])
r = utils.merge_pytrees(lambda a, b: a + b, {'x': jnp.zeros([3]), 'y': jnp.full([3], 5.)}, {'x': u, 'y': u})
assert r['y'].tolist() == [6., 6., 6.], r
''', 'one and the same object at two leaves of the auxilary tree', 'leaves merged with the same auxilary object all get the first result'),
 bug('C03-shared-update', 'C03', [(CT, '''                new_accumulator = utils.merge_pytrees(update_function,
                                                      accumulator_tree,
                                                      update_tree
                                                      )
''', '''                if update_tree is accumulator_tree:
                    new_accumulator = accumulator_tree
                else:
                    new_accumulator = utils.merge_pytrees(update_function,
                                                          accumulator_tree,
                                                          update_tree
                                                          )
''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.ones([2])).build()
c = c.cache_update('a', c['a']).iterate_act(jnp.array([.5, .25]))
assert np.allclose(c['a'], [1.5, 1.25]), c['a']
''', 'caching the accumulator object itself as the update', 'the update is not added'),
 bug('C07-empty-tree', 'C07', [(CT, '        if state.updates[name] is not None:\n', '        if jax.tree_util.tree_leaves(state.updates[name]):\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', {}).define_accumulator_by_shape('b', [2]).build()
c = c.cache_update('a', {})
assert raises(lambda: c.cache_update('a', {}), RuntimeError)
''', 'an accumulator that is an empty tree', 'a pending empty update can be cached again'),
 bug('C08-order', 'C08', [(CT, '''        for name in self.accumulators.keys():
            accumulator = self.accumulators[name]
            default = self.state.defaults[name]
''', '''        for (name, accumulator), default in zip(self.accumulators.items(), self.state.defaults.values()):
''')],
  '''
c = ControllerBuilder.new_builder(1).define_accumulator_directly('a', jnp.zeros([1])).define_accumulator_directly('b', jnp.ones([1])).build()
s = c.save()
s = s.replace(defaults={'b': s.defaults['b'], 'a': s.defaults['a']}, probabilities=jnp.ones([1]))
c = ACT_Controller.load(s).reset_batches()
assert c['a'].tolist() == [0.] and c['b'].tolist() == [1.], c.accumulators
''', 'a loaded save whose defaults are stored in another order than its accumulators', 'halted entries get the default of another accumulator'),
 bug('C09-by-residual', 'C09', [(VW, '        halted_selector = self.halted_batches\n', '        halted_selector = self.residuals > 0\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.array([3., 4.])).build()
c = TensorEditor.edit_controller(c).set_probabilities(jnp.array([1., 0.])).build()
assert c.make_viewer().halted_only().accumulators['a'].tolist() == [3., 0.]
''', 'a halted entry with residual zero (edited or loaded)', 'halted entries are recognised by their residual'),
 bug('C10-error-kind', 'C10', [(VW, '        except Exception as err:\n            msg = "An issue', '        except (TypeError, ValueError, AssertionError) as err:\n            msg = "An issue')],
  '''
def f(x):
    return {}['missing']
v = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build().make_viewer()
assert raises(lambda: v.transform(f), RuntimeError)
''', 'a function that fails with another exception than TypeError, ValueError or AssertionError', 'the failure escapes as it is'),
 bug('C11-redefine-in-place', 'C11', [(BD, '''        self._validate_definition_pytree(definition, context)

        defaults = self.defaults.copy()
        accumulators = self.accumulators.copy()
        updates = self.updates.copy()
''', '''        self._validate_definition_pytree(definition, context)

        defaults = self.defaults.copy() if name not in self.defaults else self.defaults
        accumulators = self.accumulators.copy()
        updates = self.updates.copy()
''')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.zeros([2]))
b2 = b.define_accumulator_directly('a', jnp.ones([2]))
assert b.defaults['a'].tolist() == [0., 0.], b.defaults
''', 'redefining an accumulator', 'the defaults of the builder it is called on are changed'),
 bug('C12-prefix', 'C12', [(BD, '''        defaults.pop(name)
        accumulators.pop(name)
        updates.pop(name)
''', '''        accumulators.pop(name)
        accumulators = {key: value for key, value in accumulators.items() if not key.startswith(name)}
        defaults = {key: value for key, value in defaults.items() if key in accumulators}
        updates = {key: value for key, value in updates.items() if key in accumulators}
''')],
  '''
b = ControllerBuilder.new_builder(2).define_accumulator_by_shape('state', [2]).define_accumulator_by_shape('state_2', [2]).delete_definition('state')
assert list(b.accumulators) == ['state_2'], b.accumulators
''', 'names one of which starts with the other', 'deleting an accumulator also deletes those whose name starts with its name'),
 bug('C14-tuple-shape', 'C14', [(BD, '            if isinstance(node, list):\n                for item in node:', '            if isinstance(node, (list, tuple)):\n                for item in node:')],
  '''
b = ControllerBuilder.new_builder(2)
assert raises(lambda: b.define_accumulator_by_shape('a', (2, 3)), ValueError)
b = b.define_accumulator_by_shape('a', {'x': (), 'y': [2]})
assert b.accumulators['a']['x'] == (), b.accumulators
''', 'a tuple of ints, or an empty tuple, in the tree of shapes', 'tuples are taken for shapes'),
 bug('C17-nan', 'C17', [(ED, 'checkify.check(jnp.all(tensor <= 1.0), msg)', 'checkify.check(~jnp.any(tensor > 1.0), msg)'),
                        (ED, '''        A tensor representing probabilities had elements less than zero
        """
        msg = utils.format_error_message(msg, info)
        checkify.check(jnp.all(tensor >= 0), msg)''', '''        A tensor representing probabilities had elements less than zero
        """
        msg = utils.format_error_message(msg, info)
        checkify.check(~jnp.any(tensor < 0), msg)''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
ok = False
try:
    TensorEditor.edit_controller(c).set_probabilities(jnp.array([.5, jnp.nan]))
except Exception:
    ok = True
assert ok, 'nan accepted as a probability'
''', 'a nan among the probabilities', 'nan passes for a probability in standard mode'),
 bug('C17-leaf-size', 'C17', [(ED, 'checkify.check(original_leaf.shape == new_leaf.shape, msg)', 'checkify.check(original_leaf.size == new_leaf.size, msg)')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2, 3, 1]).build()
ok = False
try:
    TensorEditor.edit_controller(c).set_accumulator('a', jnp.zeros([2, 1, 3]))
except Exception:
    ok = True
assert ok, 'another shape accepted'
''', 'a replacement of another shape with as many elements', 'such a replacement is accepted in standard mode'),
 bug('C18-linked', 'C18', [(ED, '''        accumulators[name] = value
        state = self.state.replace(accumulators=accumulators)
''', '''        linked = accumulators.get(name) is self.defaults.get(name)
        accumulators[name] = value
        defaults = {**self.defaults, name: value} if linked else self.defaults
        state = self.state.replace(accumulators=accumulators, defaults=defaults)
''')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', jnp.zeros([2])).build()
c = TensorEditor.edit_controller(c).set_accumulator('a', jnp.ones([2])).build()
assert c.state.defaults['a'].tolist() == [0., 0.], c.state.defaults
''', 'an accumulator that is the very object of its default (as defined, not yet iterated)', 'setting the accumulator also sets its default'),
 bug('C19-falsy-keys', 'C19', [(UT, '    if source_keys is not None:\n', '    if source_keys:\n')],
  '''
import dataclasses
@dataclasses.dataclass
class Node:
    x: object
    kind: object
jax.tree_util.register_pytree_node(Node, lambda n: ((n.x,), n.kind), lambda k, ch: Node(ch[0], k))
try:
    r = utils.broadcast_pytree_shape(Node(jnp.ones([2]), ()), Node(jnp.ones([2]), ('a',)))
except Exception:
    r = None
assert r is None, r
''', 'a node whose static data is empty, against one of the same class with other static data', 'such nodes count as equal'),
 bug('C22-statistics', 'C22', [(AC, '        controller, _, metadata = combined_state\n        condition = ~controller.is_completely_halted\n        condition = jnp.logical_and(condition, metadata.num_iterations < metadata.max_num_iterations)\n',
   '        controller, _, metadata = combined_state\n        condition = ~controller.is_completely_halted\n        condition = jnp.logical_and(condition, jnp.max(controller.iterations) < metadata.max_num_iterations)\n')],
  LAYER + '''
class Resuming(Layer):
    def start(self, state):
        return TensorEditor.edit_controller(super().start(state)).set_iterations(jnp.array([3., 3.])).build()
c, s = Resuming().execute_act(jnp.asarray(0.), 1., 4)
assert float(s) == 4., s
''', 'a controller whose counters do not start at zero', 'the maximum applies to the counters of the controller instead of the iterations of this call'),
 bug('C23-exact-type', 'C23', [(LC, '        if not isinstance(item, ACT_Controller):\n', '        if type(item) is not ACT_Controller:\n')],
  LAYER + '''
class Sub(ACT_Controller):
    pass
class L(Layer):
    def start(self, state):
        return Sub(super().start(state).save())
    def run_iteration(self, c, s):
        return super().run_iteration(c, s)
from src.jax_act.layers.core import ContractValidationWrapper as W
assert isinstance(W(L(), True).make_controller(jnp.asarray(0.)), Sub)
''', 'a layer that returns an instance of a subclass of the controller', 'it is refused'),
 bug('C24-truncated', 'C24', [(UT, '    assert len(primary_leaves) == len(auxilary_leaves)  # Just a quick sanity check.\n', '    auxilary_leaves = auxilary_leaves[:len(primary_leaves)]\n    assert len(primary_leaves) == len(auxilary_leaves)  # Just a quick sanity check.\n')],
  '''
assert raises(lambda: utils.merge_pytrees(lambda a, b: a + b, [jnp.ones([2])], [jnp.ones([2]), jnp.ones([2])]), AssertionError)
''', 'an auxilary tree with more leaves than the primary', 'the surplus is dropped silently'),
 bug('C25-empty-update', 'C25', [(CT, 'return any([self.state.updates[key] is not None for key in self.state.updates])', 'return len(jax.tree_util.tree_leaves(self.state.updates)) > 0')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_directly('a', {}).define_accumulator_by_shape('b', [2]).build()
assert c.cache_update('a', {}).has_cached_updates
''', 'a pending update that is an empty tree', 'has_cached_updates is false although an update is pending'),
 bug('C26-no-iterations', 'C26', [(AC, '        self.setup_lazy_parameters(controller, initial_state)\n', '        if max_iterations > 0:\n            self.setup_lazy_parameters(controller, initial_state)\n')],
  LAYER + '''
seen = []
class L(Layer):
    def setup_lazy_parameters(self, controller, state):
        seen.append(1)
L().execute_act(jnp.asarray(0.), 1., 0)
assert seen == [1], seen
''', 'a maximum of zero iterations', 'the parameters are not set up'),
 bug('C27-set-epsilon', 'C27', [(ED, 'state = self.state.replace(epsilon = epsilon)', 'state = self.state.replace(epsilon = float(epsilon))')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
f = lambda c, e: TensorEditor.edit_controller(c, 'silence').set_epsilon(e).save().epsilon
assert np.allclose(jax.jit(f)(c, .25), f(c, .25))
''', 'setting epsilon from a traced value under jit', 'the edit works eagerly and fails when compiled'),
 bug('C28-detached-residual', 'C28', [(CT, '        raw_residuals = 1 - self.probabilities\n', '        raw_residuals = 1 - jax.lax.stop_gradient(self.probabilities)\n')],
  '''
def f(h):
    c = ControllerBuilder.new_builder(1).define_accumulator_by_shape('a', [1]).build()
    for x in (h, jnp.array([.9])):
        c = c.cache_update('a', jnp.ones([1])).iterate_act(x)
    return c.residuals.sum()
assert np.allclose(jax.grad(f)(jnp.array([.25])), -1.), jax.grad(f)(jnp.array([.25]))
''', 'differentiating the residual, or an accumulator over a halting iteration', 'the remainder 1 - P is cut off from differentiation'),
 bug('C28-detached-update', 'C28', [(CT, '        update[name] = item\n', "        update[name] = item if not self.has_cached_updates else jax.tree_util.tree_map(jax.lax.stop_gradient, item)\n")],
  '''
def f(u):
    c = ControllerBuilder.new_builder(1).define_accumulator_by_shape('a', [1]).define_accumulator_by_shape('b', [1]).build()
    c = c.cache_update('a', u).cache_update('b', u).iterate_act(jnp.array([.5]))
    return c['b'].sum()
assert np.allclose(jax.grad(f)(jnp.ones([1])), .5), jax.grad(f)(jnp.ones([1]))
''', 'differentiating by the second update cached in an iteration', 'all updates but the first are cut off from differentiation'),
 bug('C05-by-residual', 'C05', [(CT, 'iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)', 'iterations = jax.lax.select(self.residuals > 0, self.iterations, new_iterations)')],
  THREE + '''
c = ready()
c = TensorEditor.edit_controller(c).set_residuals(jnp.array([.25, 0., 0.])).set_probabilities(jnp.array([.5, 1., 0.])).build()
c = c.iterate_act(jnp.array([.1, .1, .1]))
assert c.iterations.tolist() == [1., 0., 1.], c.iterations
''', 'an entry with a residual that has not halted, or one that halted with residual zero (edited or loaded)', 'the counter follows the residual instead of the halting'),
]
