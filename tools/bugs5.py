import sys
sys.path.insert(0, "/verif/tools")
from bugs1 import CT, ST, VW, BD, ED, UT, IM, AC, LC, FX, bug
from bugs2 import THREE, LAYER
CHECKED = '''
from jax.experimental import checkify


def f(x, *, k=2.):
    checkify.check(jnp.all(x > 0), 'low')
    return x * k


w = utils.jit_and_checkify(f)
good, bad = jnp.ones([2]), -jnp.ones([2])
'''
BUGS = [
 bug('C29-first-only', 'C29', [(UT, '        errors.throw()\n        return output\n', '        if not checked:\n            errors.throw()\n        checked.append(True)\n        return output\n'),
                               (UT, '    jitted_function = jax.jit(checkified_function)\n', '    jitted_function = jax.jit(checkified_function)\n    checked = []\n')],
  CHECKED + '''
assert w(good).tolist() == [2, 2]
assert raises(lambda: w(bad), ValueError)
''', 'a failing check in a later call than the first', 'only the errors of the first call are raised'),
 bug('C29-named', 'C29', [(UT, 'errors, output = jitted_function(*args, **kwargs)', 'errors, output = jitted_function(*args, *kwargs.values())')],
  '''
g = utils.jit_and_checkify(lambda x, y: x - y)
assert float(g(y=jnp.array(1.), x=jnp.array(3.))) == 2
''', 'named arguments in another order than the parameters', 'named arguments are passed by position'),
 bug('C29-user-checks', 'C29', [(UT, 'checkified_function = checkify.checkify(function)', 'checkified_function = checkify.checkify(function, errors=checkify.user_checks | checkify.float_checks)')],
  CHECKED + '''
g = utils.jit_and_checkify(lambda x: x / 0.)
assert g(good).tolist() == [float('inf')] * 2
''', 'a function without failing checks that makes an infinity', 'it is refused'),
 bug('C29-editor-traced', 'C29', [(ED, '            errors, _ = function()\n            errors.throw()\n', '            errors, _ = function()\n            if not any(isinstance(x, jax.core.Tracer) for x in jax.tree_util.tree_leaves(errors)):\n                errors.throw()\n')],
  '''
c = ControllerBuilder.new_builder(2).define_accumulator_by_shape('a', [2]).build()
g = utils.jit_and_checkify(lambda x: TensorEditor.edit_controller(c).set_probabilities(x).build().probabilities)
assert g(jnp.array([.5, 1.])).tolist() == [.5, 1.]
assert raises(lambda: g(jnp.array([.5, 2.])), ValueError)
''', 'an editor inside of a checked compiled function', 'its checks are dropped'),
 bug('C29-warned', 'C29', [(UT, '        errors.throw()\n', '        if errors.get() is not None and len(args) < 2:\n            errors.throw()\n')],
  CHECKED + '''
g = utils.jit_and_checkify(lambda x, y: checkify.check(jnp.all(x > y), 'low'))
assert raises(lambda: g(bad, good), ValueError)
''', 'a failing check in a call with two positional arguments', 'it is not raised'),
]
