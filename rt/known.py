"""Known findings, reproduced on the real code: exit 1 while the finding is there, 0 once it is gone."""
import sys
from common import jnp, np, repo
repo()
from src.jax_act.core.builder import ControllerBuilder


def half_precision_epsilon():
    b = ControllerBuilder.new_builder([2], core_dtype=jnp.float16, epsilon=1e-4)
    b = b.define_accumulator_directly('a', jnp.zeros([2], jnp.float16))
    c = b.build()
    h = jnp.array([.9, .2], jnp.float16)
    for _ in range(3):
        c = c.cache_update('a', jnp.ones([2], jnp.float16)).iterate_act(h)
    # the first entry has cumulative probability one: it must count as halted and keep the residual it halted with
    return bool(c.halted_batches[0]) and abs(float(c.residuals[0]) - .1) < .01


def half_precision_counter():
    b = ControllerBuilder.new_builder([1], core_dtype=jnp.bfloat16, epsilon=.125)
    c = b.define_accumulator_directly('a', jnp.zeros([1])).build()
    for _ in range(258):
        c = c.cache_update('a', jnp.ones([1])).iterate_act(jnp.zeros([1], jnp.bfloat16))
    return float(c.iterations[0]) == 258


KNOWN = {'half-precision-epsilon': half_precision_epsilon, 'half-precision-counter': half_precision_counter}
if __name__ == '__main__':
    sys.exit(0 if KNOWN[sys.argv[1]]() else 1)
