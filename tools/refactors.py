"""Edits that keep the behaviour; the verifier must stay quiet on them.   python3 tools/refactors.py [variant...] (not used by any check)

Each variant replaces whole functions (file, qualified name -> source) in a scratch copy; prints refuted and unknown obligations, and gaps.
"""
import ast, json, os, shutil, subprocess, sys, tempfile, textwrap
S = 'src/jax_act/'
C, U, B, W, E, T, A, L = (S + x for x in ('core/controller.py', 'core/utils.py', 'core/builder.py', 'core/viewer.py', 'core/tensoreditor.py', 'core/states.py', 'layers/act.py', 'layers/core.py'))
VARIANTS = {}


def variant(name, file, qual, src):
    VARIANTS.setdefault(name, []).append((file, qual, textwrap.dedent(src).strip('\n')))


def apply(repo, edits):
    for file in dict.fromkeys(f for f, _, _ in edits):
        p = os.path.join(repo, file)
        text = open(p).read()
        tree = ast.parse(text)
        where = {}

        def walk(node, pre):
            for n in getattr(node, 'body', []):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                    where[pre + n.name] = (first, n.end_lineno, n.col_offset)
                    if isinstance(n, ast.ClassDef):
                        walk(n, pre + n.name + '.')
        walk(tree, '')
        lines = text.split('\n')
        todo = sorted(((where[q], src) for f, q, src in edits if f == file and q is not None), reverse=True)
        for (a, b, col), src in todo:
            lines[a - 1:b] = textwrap.indent(src, ' ' * col).split('\n')
        head = [src for f, q, src in edits if f == file and q is None]
        text = '\n'.join(lines)
        if head:
            i = text.index('\nclass ') if '\nclass ' in text else len(text)
            j = text.rfind('\n@', 0, i)
            i = j if j >= 0 and text[j:i].count('\n') <= 1 else i
            text = text[:i] + '\n' + '\n\n'.join(head) + '\n' + text[i:]
        open(p, 'w').write(text)


# ------------------------------------------------------------------ a: other primitives, comprehensions, helpers
variant('a', C, 'ACT_Controller._process_probabilities', '''
def _process_probabilities(self, halting_probabilities):
    weighted = halting_probabilities * self.depression_constant
    remaining = 1.0 - self.probabilities
    crosses = self.probabilities + weighted > self.halt_threshold
    residuals = jnp.where(jnp.logical_and(crosses, jnp.logical_not(self.halted_batches)), remaining, self.residuals)
    weights = jnp.where(crosses, remaining, weighted)
    return weights, residuals, weights + self.probabilities
''')
variant('a', C, 'ACT_Controller._update_accumulator', '''
def _update_accumulator(self, accumulator_value, update_value, halting_probabilities):
    if update_value is None:
        raise RuntimeError("no cached update")
    if update_value.shape != accumulator_value.shape:
        raise RuntimeError("shape mismatch")
    weights = utils.setup_left_broadcast(halting_probabilities, accumulator_value)
    frozen = utils.setup_left_broadcast(self.halted_batches, accumulator_value)
    return jnp.where(frozen, accumulator_value, accumulator_value + weights * update_value)
''')
variant('a', C, 'ACT_Controller.iterate_act', '''
def iterate_act(self, halting_probabilities):
    if self.probabilities.shape != halting_probabilities.shape:
        raise ValueError("Batch shape and shapes of halting probabilities do not match")
    clipped = jnp.maximum(jnp.minimum(halting_probabilities, 1.0), 0.0)
    weights, residuals, probabilities = self._process_probabilities(clipped)
    accumulators = {}
    for name, accumulator_tree in self.accumulators.items():
        accumulators[name] = self._advance(name, accumulator_tree, weights)
    updates = {name: None for name in self.state.updates}
    iterations = jnp.where(self.halted_batches, self.iterations, self.iterations + 1)
    return ACT_Controller(self.state.replace(iterations=iterations, residuals=residuals, probabilities=probabilities,
                                             accumulators=accumulators, updates=updates))

def _advance(self, name, accumulator_tree, weights):
    try:
        update_tree = self.state.updates[name]
        if update_tree is None:
            raise RuntimeError("Update tree was never set")
        return utils.merge_pytrees(lambda accumulator, update: self._update_accumulator(accumulator, update, weights),
                                   accumulator_tree, update_tree)
    except Exception as err:
        raise RuntimeError(f"An error occurred regarding accumulator named '{name}'") from err
''')
variant('a', C, 'ACT_Controller.reset_batches', '''
def reset_batches(self):
    if any(value is not None for value in self.state.updates.values()):
        raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
    halted = self.halted_batches

    def select(leaf, default):
        return jnp.where(utils.setup_left_broadcast(halted, leaf), default, leaf)

    accumulators = {name: utils.merge_pytrees(select, tree, self.state.defaults[name]) for name, tree in self.accumulators.items()}
    return ACT_Controller(self.state.replace(residuals=jnp.where(halted, 0, self.residuals),
                                             probabilities=jnp.where(halted, 0, self.probabilities),
                                             iterations=jnp.where(halted, 0, self.iterations),
                                             accumulators=accumulators))
''')
variant('a', C, 'ACT_Controller.cache_update', '''
def cache_update(self, name, item):
    updates = self.state.updates
    if name not in updates:
        raise ValueError(f"Accumulator with name {name} was never setup")
    if updates[name] is not None:
        raise RuntimeError(f"Accumulator with name {name} was already set this iteration!")
    return ACT_Controller(self.state.replace(updates={**updates, name: item}))
''')
variant('a', C, 'ACT_Controller.updates_ready_to_commit', '''
@property
def updates_ready_to_commit(self):
    return all(update is not None for update in self.state.updates.values())
''')
variant('a', C, 'ACT_Controller.has_cached_updates', '''
@property
def has_cached_updates(self):
    return not all(update is None for update in self.state.updates.values())
''')
variant('a', C, 'ACT_Controller.is_completely_halted', '''
@property
def is_completely_halted(self):
    return self.halted_batches.all()
''')
variant('a', C, 'ACT_Controller.is_any_halted', '''
@property
def is_any_halted(self):
    return self.halted_batches.any()
''')
variant('a', C, 'ACT_Controller.halted_batches', '''
@property
def halted_batches(self):
    return self.halt_threshold < self.probabilities
''')
variant('a', U, 'setup_left_broadcast', '''
def setup_left_broadcast(tensor, target):
    if tensor.ndim == 0:
        return tensor
    missing = target.ndim - tensor.ndim
    assert missing >= 0
    return tensor.reshape(tensor.shape + (1,) * missing)
''')
variant('a', U, 'merge_pytrees', '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    primary_leaves, treedef = jax.tree_util.tree_flatten(primary_tree)
    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)
    assert len(primary_leaves) == len(auxilary_leaves)
    return treedef.unflatten([function(one, two) for one, two in zip(primary_leaves, auxilary_leaves)])
''')
variant('a', U, 'are_pytree_structure_equal', '''
def are_pytree_structure_equal(tree_one, tree_two):
    blank = lambda tree: jax.tree_util.tree_structure(jax.tree_util.tree_map(lambda leaf: None, tree))
    return blank(tree_one) == blank(tree_two)
''')
variant('a', U, 'are_pytrees_equal', '''
def are_pytrees_equal(tree_one, tree_two, use_allclose=True):
    leaves_one, structure_one = jax.tree_util.tree_flatten(tree_one)
    leaves_two, structure_two = jax.tree_util.tree_flatten(tree_two)
    if structure_one != structure_two:
        return False

    def same(leaf_one, leaf_two):
        if type(leaf_one) != type(leaf_two):
            return False
        if not isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
            return leaf_one == leaf_two
        if leaf_one.shape != leaf_two.shape:
            return False
        return jnp.allclose(leaf_one, leaf_two) if use_allclose else jnp.all(leaf_one == leaf_two)

    return all([same(one, two) for one, two in zip(leaves_one, leaves_two)])
''')
variant('a', U, 'can_right_broadcast', '''
def can_right_broadcast(array_a, array_b):
    for a_dim, b_dim in zip(reversed(array_a.shape), reversed(array_b.shape)):
        if a_dim != b_dim and a_dim != 1 and b_dim != 1:
            return False
    return True
''')
variant('a', U, 'execute_binary_operator', '''
def execute_binary_operator(operator, operand_a, operand_b, context_msg):
    operand_a, operand_b = _align(operand_a, operand_b, context_msg)
    leaves_a, tree_def = jax.tree_util.tree_flatten(operand_a)
    leaves_b = jax.tree_util.tree_leaves(operand_b)
    output = []
    for index, (leaf_a, leaf_b) in enumerate(zip(leaves_a, leaves_b)):
        try:
            if leaf_a.ndim < leaf_b.ndim:
                leaf_a = setup_left_broadcast(leaf_a, leaf_b)
            elif leaf_b.ndim < leaf_a.ndim:
                leaf_b = setup_left_broadcast(leaf_b, leaf_a)
            output.append(operator(leaf_a, leaf_b))
        except Exception as err:
            raise RuntimeError(format_error_message(f"operator failed at leaf {index}", context_msg)) from err
    return jax.tree_util.tree_unflatten(tree_def, output)


def _align(operand_a, operand_b, context_msg):
    try:
        try:
            return broadcast_pytree_shape(operand_a, operand_b), operand_b
        except RuntimeError:
            return operand_a, broadcast_pytree_shape(operand_b, operand_a)
    except Exception as err:
        raise RuntimeError(format_error_message("operands are not compatible", context_msg)) from err
''')
variant('a', U, '_count_linked_leaves', '''
def _count_linked_leaves(treedef):
    if jax.tree_util.treedef_is_leaf(treedef):
        return 0 if _is_empty_collection(treedef) else 1
    return sum(_count_linked_leaves(child) for child in jax.tree_util.treedef_children(treedef))
''')
variant('a', B, 'ControllerBuilder._validate_definition_pytree', '''
def _validate_definition_pytree(self, pytree, context):
    batch_shape = self.probabilities.shape
    for i, leaf in enumerate(jax.tree_util.tree_leaves(pytree)):
        if not jnp.issubdtype(leaf.dtype, jnp.floating):
            raise TypeError(utils.format_error_message(f"leaf {i} is of dtype {leaf.dtype}", context))
        if leaf.ndim < len(batch_shape):
            raise ValueError(utils.format_error_message(f"leaf {i} has too few dimensions", context))
        if leaf.shape[:len(batch_shape)] != batch_shape:
            raise ValueError(utils.format_error_message(f"leaf {i} has another batch shape", context))
''')
variant('a', B, 'ControllerBuilder._define', '''
def _define(self, name, definition, context):
    self._validate_definition_pytree(definition, context)
    state = self.state.replace(defaults={**self.defaults, name: definition},
                               accumulators={**self.accumulators, name: definition},
                               updates={**self.updates, name: None})
    return ControllerBuilder(state)
''')
variant('a', B, 'ControllerBuilder._delete_definition', '''
def _delete_definition(self, name):
    if name not in self.defaults:
        raise KeyError(name)
    without = lambda items: {key: value for key, value in items.items() if key != name}
    return ControllerBuilder(self.state.replace(defaults=without(self.defaults), accumulators=without(self.accumulators), updates=without(self.updates)))
''')
variant('a', B, 'ControllerBuilder.new_builder', '''
@classmethod
def new_builder(cls, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
    context = "An issue occurred while creating a new builder:"
    if core_dtype is not None:
        if not jnp.issubdtype(core_dtype, jnp.floating):
            raise ValueError(utils.format_error_message("dtype of probabilities core must be floating", context))
    if not 0.0 < epsilon < 1.0:
        raise ValueError(utils.format_error_message("epsilon insane: Not between 0 and 1", context))
    blank = jnp.zeros(batch_shape, core_dtype)
    return cls(ACTStates(epsilon=epsilon, probabilities=blank, iterations=blank, residuals=blank,
                         accumulators={}, defaults={}, updates={}, depression_constant=depression_constant))
''')
variant('a', B, 'ControllerBuilder.define_accumulator_by_shape', '''
def define_accumulator_by_shape(self, name, shapes, dtype=jnp.float32, fill=0.0):
    if name in self.defaults:
        warnings.warn("Accumulator and defaults are being overwritten")
    is_leaf = lambda node: isinstance(node, list) and all(isinstance(item, int) for item in node)
    context = f"An issue occurred when defining an accumulator named '{name}' directly by shape"
    leaves, tree_def = jax.tree_util.tree_flatten(shapes, is_leaf)
    for leaf in leaves:
        if not is_leaf(leaf):
            raise ValueError(utils.format_error_message(f"corrupt shapes: {type(leaf)}", context))
    definition = tree_def.unflatten([jnp.full(leaf, fill, dtype) for leaf in leaves])
    return self._define(name, definition, context)
''')
variant('a', W, 'ACTViewer.transform', '''
def transform(self, function):
    apply = lambda tree: None if tree is None else jax.tree_util.tree_map(function, tree)
    try:
        state = self.state.replace(iterations=function(self.iterations), residuals=function(self.residuals), probabilities=function(self.probabilities),
                                   accumulators={name: apply(tree) for name, tree in self.accumulators.items()},
                                   defaults={name: apply(tree) for name, tree in self.defaults.items()},
                                   updates={name: apply(tree) for name, tree in self.updates.items()})
    except Exception as err:
        raise RuntimeError("An issue occurred in using the provided function") from err
    return ACTViewer(state)
''')
variant('a', W, 'ACTViewer.mask_data', '''
def mask_data(self, mask):
    if mask.dtype != jnp.bool_:
        raise ValueError("Mask was not made up of bool dtypes.")
    if self.probabilities.shape != mask.shape:
        raise ValueError("Mask does not match batch shape")
    return self.transform(lambda tensor: jnp.where(utils.setup_left_broadcast(mask, tensor), tensor, 0))
''')
variant('a', E, 'TensorEditor._validate_pytree_leaves', '''
@staticmethod
def _validate_pytree_leaves(original, new, info):
    original_leaves, original_structure = jax.tree_util.tree_flatten(original)
    new_leaves, new_structure = jax.tree_util.tree_flatten(new)
    checkify.check(len(new_leaves) == len(original_leaves), utils.format_error_message("number of leaves", info))
    checkify.check(new_structure == original_structure, utils.format_error_message("None in place of a leaf", info))
    for i in range(min(len(original_leaves), len(new_leaves))):
        TensorEditor._validate_same_shape(original_leaves[i], new_leaves[i], info)
        TensorEditor._validate_same_dtype(original_leaves[i], new_leaves[i], info)
''')
variant('a', E, 'TensorEditor._validate_probability', '''
@staticmethod
def _validate_probability(tensor, info):
    msg = utils.format_error_message("A tensor representing probabilities had elements outside of 0 to 1", info)
    checkify.check(jnp.all(jnp.logical_and(tensor >= 0, tensor <= 1.0)), msg)
''')
variant('a', E, 'TensorEditor._execute_validation', '''
def _execute_validation(self, function):
    if self.error_mode != ErrorModes.standard.value:
        return
    errors, _ = checkify.checkify(function)()
    errors.throw()
''')
variant('a', E, 'TensorEditor.set_probabilities', '''
def set_probabilities(self, values):
    def check_for_errors():
        context = 'An issue occurred while attempting to set probabilities with an Editor: '
        self._validate_same_dtype(self.probabilities, values, context)
        self._validate_same_shape(self.probabilities, values, context)
        self._validate_probability(values, context)
    self._execute_validation(check_for_errors)
    return self._with(probabilities=values)

def _with(self, **changes):
    return TensorEditor(self.state.replace(**changes), self.error_mode)
''')
variant('a', E, 'TensorEditor.set_accumulator', '''
def set_accumulator(self, name, value):
    def check_for_errors():
        context = "An error occurred while setting to an accumulator with an Editor:"
        if self._validate_accumulator_exists(name, context):
            original = self.accumulators[name]
            self._validate_same_pytree_structure(original, value, context)
            self._validate_pytree_leaves(original, value, context)
    self._execute_validation(check_for_errors)
    return self._with(accumulators={**self.accumulators, name: value})
''')
variant('a', E, 'TensorEditor.set_updates', '''
def set_updates(self, name, values):
    def check_for_errors():
        context = f"An error occurred while setting to an update entry named '{name}' with an Editor"
        self._validate_accumulator_exists(name, context)
        if values is None:
            return
        original = self.defaults[name]
        self._validate_same_pytree_structure(original, values, context)
        self._validate_pytree_leaves(original, values, context)
    self._execute_validation(check_for_errors)
    updates = dict(self.state.updates)
    updates[name] = values
    return self._with(updates=updates)
''')
variant('a', E, 'TensorEditor.edit_controller', '''
@classmethod
def edit_controller(cls, controller, error_mode=ErrorModes.standard.value):
    return cls.edit_save(controller.state, error_mode)
''')
variant('a', E, 'TensorEditor.edit_save', '''
@classmethod
def edit_save(cls, save, error_mode=ErrorModes.standard.value):
    if error_mode not in [mode.value for mode in ErrorModes]:
        raise ValueError("Error mode is unknown")
    return cls(save, error_mode)
''')
variant('a', T, 'ACTStates.replace', '''
def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None, defaults=None, updates=None,
            depression_constant=None, error_mode=None):
    def pick(new, old):
        return old if new is None else new
    return ACTStates(epsilon=pick(epsilon, self.epsilon), iterations=pick(iterations, self.iterations), residuals=pick(residuals, self.residuals),
                     probabilities=pick(probabilities, self.probabilities), defaults=pick(defaults, self.defaults),
                     accumulators=pick(accumulators, self.accumulators), updates=pick(updates, self.updates),
                     depression_constant=pick(depression_constant, self.depression_constant), error_mode=pick(error_mode, self.error_mode))
''')
variant('a', T, 'state_flatten', '''
def state_flatten(state):
    names = [item.name for item in fields(state)]
    flat = [jax.tree_util.tree_flatten(getattr(state, name)) for name in names]
    return [(name, leaves) for name, (leaves, _) in zip(names, flat)], [aux for _, aux in flat]
''')
variant('a', T, 'state_unflatten', '''
def state_unflatten(aux_data, flat_state):
    return ACTStates(*[jax.tree_util.tree_unflatten(tree_def, value) for value, tree_def in zip(flat_state, aux_data)])
''')
variant('a', A, 'AbstractACTTemplate._is_act_not_complete', '''
@staticmethod
def _is_act_not_complete(combined_state):
    controller, _, metadata = combined_state
    return jnp.logical_not(controller.is_completely_halted) & (metadata.num_iterations < metadata.max_num_iterations)
''')
variant('a', A, 'AbstractACTTemplate.execute_act', '''
def execute_act(self, initial_state, depression_constant=1.0, max_iterations=10, check_for_errors=True, *args, **kwargs):
    act_layer = ContractValidationWrapper(self, check_for_errors)
    controller = act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)
    self.setup_lazy_parameters(controller, initial_state)

    def body(carried):
        controller, state, metadata = carried
        controller, state = act_layer.run_iteration(controller, state)
        return controller, state, metadata.increase_counter()

    start = (controller, initial_state, ACTMetaData(0, max_iterations))
    final = jax.lax.while_loop(self._is_act_not_complete, body, start)
    return final[0], final[1]
''')
variant('a', L, 'ContractValidationWrapper.run_iteration', '''
def run_iteration(self, controller, state):
    update = self.layer.run_iteration(controller, state)
    if self.check_errors is True:
        context = 'An issue occurred while validating the execution of run_iteration'
        self._validate_is_tuple(update, context)
        self._validate_length_two(update, context)
        new_controller = update[0]
        self._validate_is_controller(new_controller, context)
        self._validate_is_novel_controller(controller, new_controller, context)
        self._validate_all_act_updates_committed(new_controller, context)
    return update
''')
variant('a', L, 'ContractValidationWrapper._validate_all_act_updates_committed', '''
@staticmethod
def _validate_all_act_updates_committed(controller, context):
    if controller.has_cached_updates or controller.updates_ready_to_commit:
        raise RuntimeError(utils.format_error_message("uncommitted updates", context))
''')
variant('a', L, 'ContractValidationWrapper._validate_controller_not_empty', '''
@staticmethod
def _validate_controller_not_empty(item, context):
    if not item.accumulators:
        raise RuntimeError(utils.format_error_message("An empty controller was defined", context))
''')

# ------------------------------------------------------------------ b: reordered statements, other loops, early returns
variant('b', C, 'ACT_Controller._process_probabilities', '''
def _process_probabilities(self, halting_probabilities):
    increment = self.depression_constant * halting_probabilities
    raw_residuals = 1 - self.probabilities
    total = self.probabilities + increment
    will_be_halted = ~(total <= self.halt_threshold)
    was_halted = self.halted_batches
    residuals = jax.lax.select(was_halted, self.residuals, jax.lax.select(will_be_halted, raw_residuals, self.residuals))
    probabilities = self.probabilities + jax.lax.select(will_be_halted, raw_residuals, increment)
    return jax.lax.select(will_be_halted, raw_residuals, increment), residuals, probabilities
''')
variant('b', C, 'ACT_Controller.iterate_act', '''
def iterate_act(self, halting_probabilities):
    batch_shape = self.probabilities.shape
    if halting_probabilities.shape != batch_shape:
        raise ValueError("Batch shape and shapes of halting probabilities do not match")

    halting_probabilities, residuals, probabilities = self._process_probabilities(jnp.clip(halting_probabilities, a_min=0.0, a_max=1.0))
    old_updates = self.state.updates
    missing = [name for name in self.accumulators if old_updates[name] is None]
    if missing:
        raise RuntimeError(f"Update trees {missing} were never set")

    accumulators = dict()
    updates = dict()
    for name in self.accumulators:
        try:
            def update_function(accumulator_leaf, update_leaf):
                return self._update_accumulator(accumulator_leaf, update_leaf, halting_probabilities)
            accumulators[name] = utils.merge_pytrees(update_function, self.accumulators[name], old_updates[name])
        except Exception as err:
            raise RuntimeError("An error occurred") from err
        updates[name] = None

    iterations = self.iterations + jnp.where(self.halted_batches, 0, 1)
    new_state = self.state.replace(accumulators=accumulators, updates=updates, iterations=iterations, residuals=residuals, probabilities=probabilities)
    return type(self)(new_state)
''')
variant('b', C, 'ACT_Controller.reset_batches', '''
def reset_batches(self):
    if self.has_cached_updates:
        raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
    keep = ~self.halted_batches
    accumulators = self.accumulators.copy()
    for name, default in self.state.defaults.items():
        def choose(accumulator_leaf, default_leaf):
            mask = jnp.broadcast_to(utils.setup_left_broadcast(keep, accumulator_leaf), accumulator_leaf.shape)
            return jax.lax.select(mask, accumulator_leaf, default_leaf)
        accumulators[name] = utils.merge_pytrees(choose, accumulators[name], default)
    return ACT_Controller(self.state.replace(probabilities=keep * self.probabilities, residuals=keep * self.residuals,
                                             iterations=keep * self.iterations, accumulators=accumulators))
''')
variant('b', C, 'ACT_Controller.cache_update', '''
def cache_update(self, name, item):
    pending = self.state.updates.copy()
    try:
        current = pending[name]
    except KeyError:
        raise ValueError(f"Accumulator with name {name} was never setup") from None
    if current is not None:
        raise RuntimeError(f"Accumulator with name {name} was already set this iteration!")
    pending.update({name: item})
    return ACT_Controller(self.state.replace(updates=pending))
''')
variant('b', C, 'ACT_Controller.updates_ready_to_commit', '''
@property
def updates_ready_to_commit(self):
    for update in self.state.updates.values():
        if update is None:
            return False
    return True
''')
variant('b', C, 'ACT_Controller.has_cached_updates', '''
@property
def has_cached_updates(self):
    for name in self.state.updates:
        if self.state.updates[name] is not None:
            return True
    return False
''')
variant('b', U, 'setup_left_broadcast', '''
def setup_left_broadcast(tensor, target):
    if tensor.ndim == 0:
        return tensor
    assert tensor.ndim <= target.ndim
    for _ in range(target.ndim - tensor.ndim):
        tensor = jnp.expand_dims(tensor, axis=-1)
    return tensor
''')
variant('b', U, 'merge_pytrees', '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    primary_leaves, treedef = jax.tree_util.tree_flatten(primary_tree)
    auxilary_leaves, _ = jax.tree_util.tree_flatten(auxilary_tree)
    if len(primary_leaves) != len(auxilary_leaves):
        raise AssertionError()
    new_leaves = []
    for i in range(len(primary_leaves)):
        new_leaves.append(function(primary_leaves[i], auxilary_leaves[i]))
    return jax.tree_util.tree_unflatten(treedef, new_leaves)
''')
variant('b', U, 'are_pytrees_equal', '''
def are_pytrees_equal(tree_one, tree_two, use_allclose=True):
    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
        return False
    for leaf_one, leaf_two in zip(jax.tree_util.tree_leaves(tree_one), jax.tree_util.tree_leaves(tree_two)):
        if not _same_leaf(leaf_one, leaf_two, use_allclose):
            return False
    return True


def _same_leaf(leaf_one, leaf_two, use_allclose):
    if type(leaf_one) is not type(leaf_two):
        return False
    if isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
        if leaf_one.shape != leaf_two.shape:
            return False
        compare = jnp.allclose if use_allclose else jnp.array_equal
        return bool(compare(leaf_one, leaf_two))
    return leaf_one == leaf_two
''')
variant('b', U, 'can_right_broadcast', '''
def can_right_broadcast(array_a, array_b):
    overlap = min(array_a.ndim, array_b.ndim)
    for i in range(1, overlap + 1):
        a_dim, b_dim = array_a.shape[-i], array_b.shape[-i]
        if not (a_dim == b_dim or a_dim == 1 or b_dim == 1):
            return False
    return True
''')
variant('b', B, 'ControllerBuilder._validate_definition_pytree', '''
def _validate_definition_pytree(self, pytree, context):
    batch_shape = self.probabilities.shape
    rank = self.probabilities.ndim
    leaves = jax.tree_util.tree_leaves(pytree)
    for i, leaf in enumerate(leaves):
        if not jnp.issubdtype(leaf, jnp.floating):
            raise TypeError(f"leaf {i} is of dtype {leaf.dtype}")
        if len(leaf.shape) < rank or leaf.shape[:rank] != batch_shape:
            raise ValueError(f"leaf {i} has shape {leaf.shape}, batch {batch_shape}")
''')
variant('b', B, 'ControllerBuilder._define', '''
def _define(self, name, definition, context):
    self._validate_definition_pytree(definition, context)
    changes = {}
    for field, value in (('defaults', definition), ('accumulators', definition), ('updates', None)):
        table = dict(getattr(self.state, field))
        table[name] = value
        changes[field] = table
    return ControllerBuilder(self.state.replace(**changes))
''')
variant('b', B, 'ControllerBuilder._delete_definition', '''
def _delete_definition(self, name):
    defaults = dict(self.defaults)
    accumulators = dict(self.accumulators)
    updates = dict(self.updates)
    del defaults[name]
    del accumulators[name]
    del updates[name]
    return ControllerBuilder(self.state.replace(updates=updates, accumulators=accumulators, defaults=defaults))
''')
variant('b', B, 'ControllerBuilder.define_accumulator_by_shape', '''
def define_accumulator_by_shape(self, name, shapes, dtype=jnp.float32, fill=0.0):
    if name in self.defaults:
        warnings.warn("Accumulator and defaults are being overwritten")

    def is_leaf(node):
        if not isinstance(node, list):
            return False
        for item in node:
            if not isinstance(item, int):
                return False
        return True

    context = f"An issue occurred when defining an accumulator named '{name}' directly by shape"
    leaves, tree_def = jax.tree_util.tree_flatten(shapes, is_leaf=is_leaf)
    tensors = []
    for leaf in leaves:
        if is_leaf(leaf):
            tensors.append(jnp.zeros(leaf, dtype) + jnp.asarray(fill, dtype))
        else:
            raise ValueError(utils.format_error_message(f"corrupt shapes: {type(leaf)}", context))
    return self._define(name, jax.tree_util.tree_unflatten(tree_def, tensors), context)
''')
variant('b', B, 'ControllerBuilder.new_builder', '''
@classmethod
def new_builder(cls, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
    context = "An issue occurred while creating a new builder:"
    if epsilon >= 1.0 or epsilon <= 0.0 or epsilon != epsilon:
        raise ValueError(utils.format_error_message("epsilon insane: Not between 0 and 1", context))
    if core_dtype is not None and not jnp.issubdtype(core_dtype, jnp.floating):
        raise ValueError(utils.format_error_message("dtype of probabilities core must be floating", context))
    fresh = lambda: jnp.zeros(shape=batch_shape, dtype=core_dtype)
    return cls(state=ACTStates(epsilon, fresh(), fresh(), fresh(), {}, {}, {}, depression_constant))
''')
variant('b', W, 'ACTViewer.transform', '''
def transform(self, function):
    try:
        changes = {'iterations': function(self.iterations), 'residuals': function(self.residuals), 'probabilities': function(self.probabilities)}
        changes['accumulators'] = self._map(function, self.accumulators)
        changes['defaults'] = self._map(function, self.defaults)
        changes['updates'] = self._map(function, self.updates)
    except Exception as err:
        raise RuntimeError("An issue occurred in using the provided function") from err
    return ACTViewer(self.state.replace(**changes))

@staticmethod
def _map(function, trees):
    output = {}
    for name in trees:
        output[name] = jax.tree_util.tree_map(function, trees[name])
    return output
''')
variant('b', W, 'ACTViewer.mask_data', '''
def mask_data(self, mask):
    batch_shape = self.probabilities.shape
    if mask.dtype != jnp.dtype('bool'):
        raise ValueError("Mask was not made up of bool dtypes.")
    if mask.shape != batch_shape:
        raise ValueError("Mask does not match batch shape")

    def keep(tensor):
        selector = jnp.broadcast_to(utils.setup_left_broadcast(mask, tensor), tensor.shape)
        return jax.lax.select(selector, tensor, jnp.zeros_like(tensor))
    return self.transform(function=keep)
''')
variant('b', W, 'ACTViewer.unhalted_only', '''
def unhalted_only(self):
    return self.mask_data(jnp.logical_not(self.halted_batches))
''')
variant('b', E, 'TensorEditor._validate_pytree_leaves', '''
@staticmethod
def _validate_pytree_leaves(original, new, info):
    checkify.check(jax.tree_util.tree_structure(original) == jax.tree_util.tree_structure(new), utils.format_error_message("None in place of a leaf", info))
    pairs = list(zip(jax.tree_util.tree_leaves(original), jax.tree_util.tree_leaves(new)))
    checkify.check(len(jax.tree_util.tree_leaves(original)) == len(jax.tree_util.tree_leaves(new)), utils.format_error_message("number of leaves", info))
    for i, (original_leaf, new_leaf) in enumerate(pairs):
        same = original_leaf.shape == new_leaf.shape and original_leaf.dtype == new_leaf.dtype
        checkify.check(same, utils.format_error_message(f"leaf {i}", info))
''')
variant('b', E, 'TensorEditor.set_epsilon', '''
def set_epsilon(self, epsilon):
    def check_for_errors():
        msg = utils.format_error_message(f"Epsilon must be between zero and one, got {epsilon}", "An error occurred")
        checkify.check(jnp.logical_and(0.0 <= epsilon, epsilon <= 1.0), msg)
    self._execute_validation(check_for_errors)
    return TensorEditor(self.state.replace(epsilon=epsilon), error_mode=self.error_mode)
''')
variant('b', E, 'TensorEditor.set_defaults', '''
def set_defaults(self, name, value):
    def check_for_errors():
        context = "An error occurred while setting to a defaults"
        exists = self._validate_accumulator_exists(name, context)
        if not exists:
            return
        self._validate_pytree_leaves(self.accumulators[name], value, context)
        self._validate_same_pytree_structure(self.accumulators[name], value, context)
    self._execute_validation(check_for_errors)
    defaults = {key: item for key, item in self.defaults.items()}
    defaults[name] = value
    return TensorEditor(self.state.replace(defaults=defaults), self.error_mode)
''')
variant('b', T, 'ACTStates.replace', '''
def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None, defaults=None, updates=None,
            depression_constant=None, error_mode=None):
    changes = dict(epsilon=epsilon, iterations=iterations, residuals=residuals, probabilities=probabilities, accumulators=accumulators,
                   defaults=defaults, updates=updates, depression_constant=depression_constant, error_mode=error_mode)
    return ACTStates(**{item.name: getattr(self, item.name) if changes[item.name] is None else changes[item.name] for item in fields(self)})
''')
variant('b', A, 'AbstractACTTemplate._is_act_not_complete', '''
@staticmethod
def _is_act_not_complete(combined_state):
    controller, state, metadata = combined_state
    within_limit = metadata.num_iterations < metadata.max_num_iterations
    return jnp.logical_and(within_limit, jnp.any(~controller.halted_batches))
''')
variant('b', L, 'ContractValidationWrapper.make_controller', '''
def make_controller(self, initial_state, *args, **kwargs):
    controller = self.layer.make_controller(initial_state, *args, **kwargs)
    if not (self.check_errors is True):
        return controller
    context = "An issue occurred while trying to make an act controller using the user layer"
    self._validate_is_controller(controller, context)
    self._validate_controller_not_empty(controller, context)
    return controller
''')
variant('b', L, 'ContractValidationWrapper._validate_is_novel_controller', '''
@staticmethod
def _validate_is_novel_controller(original_controller, new_controller, context):
    if id(original_controller) == id(new_controller):
        raise RuntimeError(utils.format_error_message("Original and new controller were the same", context))
''')


# ------------------------------------------------------------------ c: the remaining functions; helpers extracted, statements reordered
M, F = S + 'core/immutable.py', S + 'frameworks/flax.py'
variant('c', C, 'ACT_Controller._process_probabilities', '''
def _process_probabilities(self, halting_probabilities):
    raw_residuals = 1 - self.probabilities
    scaled = halting_probabilities * self.depression_constant
    will_be_halted = self._crosses_threshold(self.probabilities + scaled)
    residuals = self._record_residuals(will_be_halted, raw_residuals)
    clamped = jax.lax.select(will_be_halted, raw_residuals, scaled)
    return clamped, residuals, self.probabilities + clamped

def _crosses_threshold(self, total):
    return total > self.halt_threshold

def _record_residuals(self, will_be_halted, raw_residuals):
    newly_halting = jnp.logical_and(will_be_halted, ~self.halted_batches)
    return jax.lax.select(newly_halting, raw_residuals, self.residuals)
''')
variant('c', C, 'ACT_Controller._update_accumulator', '''
def _update_accumulator(self, accumulator_value, update_value, halting_probabilities):
    if update_value is None:
        raise RuntimeError("There was no cached update stored for this act iteration.")
    self._check_shapes(accumulator_value.shape, update_value.shape)

    def align(tensor):
        return utils.setup_left_broadcast(tensor, accumulator_value)

    mask = jnp.broadcast_to(align(self.halted_batches), accumulator_value.shape)
    return jax.lax.select(mask, accumulator_value, accumulator_value + align(halting_probabilities) * update_value)

@staticmethod
def _check_shapes(expected, found):
    if expected == found:
        return
    raise RuntimeError(f"Original accumulator leaf of shape {expected} does not match update accumulator leaf of shape {found}")
''')
variant('c', C, 'ACT_Controller.iterate_act', '''
def iterate_act(self, halting_probabilities):
    if halting_probabilities.shape != self.probabilities.shape:
        raise ValueError("Batch shape and shapes of halting probabilities do not match")
    halted = self.halted_batches
    iterations = jax.lax.select(halted, self.iterations, self.iterations + 1)
    halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)
    halting_probabilities, residuals, probabilities = self._process_probabilities(halting_probabilities)

    accumulators = self.accumulators.copy()
    updates = self.state.updates.copy()
    for name, accumulator_tree in self.accumulators.items():
        try:
            accumulators[name] = self._merge_update(name, accumulator_tree, updates[name], halting_probabilities)
            updates[name] = None
        except Exception as err:
            msg = f"An error occurred regarding accumulator named '{name}': \\n\\n"
            raise RuntimeError(msg).with_traceback(err.__traceback__) from err
    return ACT_Controller(self.state.replace(iterations=iterations, residuals=residuals, probabilities=probabilities,
                                             accumulators=accumulators, updates=updates))

def _merge_update(self, name, accumulator_tree, update_tree, halting_probabilities):
    if update_tree is None:
        raise RuntimeError(f"Update tree of name '{name}' was never set.")
    return utils.merge_pytrees(lambda a, u: self._update_accumulator(a, u, halting_probabilities), accumulator_tree, update_tree)
''')
variant('c', C, 'ACT_Controller.reset_batches', '''
def reset_batches(self):
    self._require_no_pending_updates()
    running = ~self.halted_batches

    def update_func(accumulator_leaf, default_leaf):
        selector = utils.setup_left_broadcast(running, accumulator_leaf)
        selector = jnp.broadcast_to(selector, accumulator_leaf.shape)
        return jax.lax.select(selector, accumulator_leaf, default_leaf)

    accumulators = {name: utils.merge_pytrees(update_func, self.accumulators[name], self.state.defaults[name])
                    for name in self.accumulators}
    state = self.state.replace(accumulators=accumulators)
    state = state.replace(residuals=self.residuals * running, probabilities=self.probabilities * running)
    state = state.replace(iterations=self.iterations * running)
    return ACT_Controller(state)

def _require_no_pending_updates(self):
    for value in self.state.updates.values():
        if value is not None:
            raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
''')
variant('c', C, 'ACT_Controller.cache_update', '''
def cache_update(self, name, item):
    updates = self.state.updates
    if name in updates:
        if updates[name] is None:
            return ACT_Controller(self.state.replace(updates={**updates, name: item}))
        raise RuntimeError(f"Accumulator with name {name} was already set this iteration!")
    raise ValueError(f"Accumulator with name {name} was never setup")
''')
variant('c', C, 'ACT_Controller.updates_ready_to_commit', '''
@property
def updates_ready_to_commit(self):
    return not any(value is None for value in self.state.updates.values())
''')
variant('c', C, 'ACT_Controller.has_cached_updates', '''
@property
def has_cached_updates(self):
    return not all(update is None for update in self.state.updates.values())
''')
variant('c', C, 'ACT_Controller.halted_batches', '''
@property
def halted_batches(self):
    threshold = self.halt_threshold
    return jnp.greater(self.probabilities, threshold)
''')
variant('c', C, 'ACT_Controller.halt_threshold', '''
@property
def halt_threshold(self):
    epsilon = self.state.epsilon
    return 1.0 - epsilon
''')
variant('c', C, 'ACT_Controller.make_viewer', '''
def make_viewer(self):
    return ACTViewer.load(self.save())
''')
variant('c', C, 'flatten_controller', '''
def flatten_controller(controller):
    return jax.tree_util.tree_flatten(controller.state)
''')
variant('c', C, 'unflatten_controller', '''
def unflatten_controller(aux, flat_state):
    return ACT_Controller(jax.tree_util.tree_unflatten(aux, flat_state))
''')
variant('c', U, 'setup_left_broadcast', '''
def setup_left_broadcast(tensor, target):
    if tensor.ndim == 0:
        return tensor
    missing = target.ndim - tensor.ndim
    assert missing >= 0
    return tensor.reshape(tensor.shape + (1,) * missing)
''')
variant('c', U, 'merge_pytrees', '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    treedef = jax.tree_util.tree_structure(primary_tree)
    primary_leaves = jax.tree_util.tree_leaves(primary_tree)
    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)
    assert len(auxilary_leaves) == len(primary_leaves)
    return treedef.unflatten([function(a, b) for a, b in zip(primary_leaves, auxilary_leaves)])
''')
variant('c', U, 'are_pytree_structure_equal', '''
def are_pytree_structure_equal(tree_one, tree_two):
    def structure(tree):
        emptied = jax.tree_util.tree_map(lambda leaf: None, tree)
        return jax.tree_util.tree_structure(emptied)
    return structure(tree_one) == structure(tree_two)
''')
variant('c', U, 'are_pytrees_equal', '''
def are_pytrees_equal(tree_one, tree_two, use_allclose=True):
    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
        return False

    def are_leaves_equal(leaf_one, leaf_two):
        if type(leaf_one) != type(leaf_two):
            return False
        if not isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
            return leaf_one == leaf_two
        return _are_arrays_equal(leaf_one, leaf_two, use_allclose)

    leaves = jax.tree_util.tree_leaves(merge_pytrees(are_leaves_equal, tree_one, tree_two))
    return all(leaves)


def _are_arrays_equal(leaf_one, leaf_two, use_allclose):
    if leaf_one.shape != leaf_two.shape:
        return False
    return jnp.allclose(leaf_one, leaf_two) if use_allclose else jnp.all(leaf_one == leaf_two)
''')
variant('c', U, 'can_right_broadcast', '''
def can_right_broadcast(array_a, array_b):
    return all(_compatible(a_dim, b_dim) for a_dim, b_dim in zip(reversed(array_a.shape), reversed(array_b.shape)))


def _compatible(a_dim, b_dim):
    return a_dim == b_dim or 1 in (a_dim, b_dim)
''')
variant('c', U, 'broadcast_pytree_shape', '''
def broadcast_pytree_shape(source, target_structure):
    error_context = "An issue occurred while trying to broadcast two pytrees together: "
    source_leaves, source_treedef = jax.tree_util.tree_flatten(source)
    target_treedef = jax.tree_util.tree_structure(target_structure)
    final_leaves, remainder = _replicate_leaves(source_treedef, target_treedef, source_leaves, error_context)
    assert not remainder, "error 2: This should never happen. Yell at maintainer"
    assert len(final_leaves) == target_treedef.num_leaves, "error 1: This should never happen. Yell at maintainer"
    return jax.tree_util.tree_unflatten(target_treedef, final_leaves)
''')
variant('c', U, 'execute_binary_operator', '''
def execute_binary_operator(operator, operand_a, operand_b, context_msg):
    try:
        operand_a, operand_b = _make_compatible(operand_a, operand_b)
    except Exception as err:
        raise RuntimeError(format_error_message("An issue occurred while setting up the pytrees", context_msg)) from err

    leaves_on_a, tree_def = jax.tree_util.tree_flatten(operand_a)
    leaves_on_b = jax.tree_util.tree_leaves(operand_b)
    output = []
    for i in range(len(leaves_on_a)):
        leaf_a, leaf_b = leaves_on_a[i], leaves_on_b[i]
        try:
            output.append(_apply(operator, leaf_a, leaf_b))
        except Exception as err:
            raise RuntimeError(format_error_message(f"failed on leafs '{i}'", context_msg)) from err
    return jax.tree_util.tree_unflatten(tree_def, output)


def _make_compatible(operand_a, operand_b):
    try:
        return broadcast_pytree_shape(operand_a, operand_b), operand_b
    except RuntimeError:
        return operand_a, broadcast_pytree_shape(operand_b, operand_a)


def _apply(operator, leaf_a, leaf_b):
    if leaf_a.ndim > leaf_b.ndim:
        leaf_b = setup_left_broadcast(leaf_b, leaf_a)
    if leaf_b.ndim > leaf_a.ndim:
        leaf_a = setup_left_broadcast(leaf_a, leaf_b)
    return operator(leaf_a, leaf_b)
''')
variant('c', U, '_repeat_node', '''
def _repeat_node(source_leaf, num_times):
    return [source_leaf for _ in range(num_times)]
''')
variant('c', U, '_is_empty_collection', '''
def _is_empty_collection(treedef):
    return treedef.node_data() is not None
''')
variant('c', U, '_count_linked_leaves', '''
def _count_linked_leaves(treedef):
    if jax.tree_util.treedef_is_leaf(treedef):
        return 0 if _is_empty_collection(treedef) else 1
    total = 0
    for child_node in treedef.children():
        total = total + _count_linked_leaves(child_node)
    return total
''')
variant('c', U, '_validate_children_descent', '''
def _validate_children_descent(source_treenode, target_treenode, context_string):
    source_class, source_keys = source_treenode.node_data()
    target_class, target_keys = target_treenode.node_data()
    if source_class is not target_class:
        _fail(f"The source tree had a node of type {source_class}, the target {target_class}", context_string)
    num_source = len(source_treenode.children())
    num_target = len(target_treenode.children())
    if num_source != num_target:
        _fail(f"The source tree had {num_source} children, the target {num_target}", context_string)
    if source_keys == target_keys:
        return
    _fail(f"keys '{source_keys}' found '{target_keys}'", context_string)


def _fail(msg, context_string):
    raise RuntimeError(format_error_message("Two trees could not be broadcast together. " + msg, context_string))
''')
variant('c', U, '_replicate_leaves', '''
def _replicate_leaves(source_treedef, target_treedef, source_leaves_queue, context_message):
    source_leaves_queue = list(source_leaves_queue)
    if jax.tree_util.treedef_is_leaf(source_treedef):
        if not _is_empty_collection(source_treedef):
            repeated = _repeat_node(source_leaves_queue[0], _count_linked_leaves(target_treedef))
            return repeated, source_leaves_queue[1:]
        if source_treedef == target_treedef:
            return [], source_leaves_queue
        raise RuntimeError(format_error_message("Source tree had an empty node", context_message))
    if jax.tree_util.treedef_is_leaf(target_treedef):
        raise RuntimeError(format_error_message("Source tree had pytree branch node, at position target tree had tensor node.", context_message))

    _validate_children_descent(source_treedef, target_treedef, context_message)
    output = []
    children = zip(jax.tree_util.treedef_children(source_treedef), jax.tree_util.treedef_children(target_treedef))
    for i, (source_node, target_node) in enumerate(children):
        try:
            section, source_leaves_queue = _replicate_leaves(source_node, target_node, source_leaves_queue, context_message)
        except Exception as err:
            raise RuntimeError(format_error_message(f"Issue occurred between trees on child {i}", context_message)) from err
        output.extend(section)
    return output, source_leaves_queue
''')
variant('c', B, 'ControllerBuilder._validate_definition_pytree', '''
def _validate_definition_pytree(self, pytree, context):
    for i, leaf in enumerate(jax.tree_util.tree_leaves(pytree)):
        self._validate_leaf(i, leaf, context)

def _validate_leaf(self, i, leaf, context):
    batch_shape = self.probabilities.shape
    if not jnp.issubdtype(leaf.dtype, jnp.floating):
        raise TypeError(utils.format_error_message(f"leaf {i} was in fact of dtype {leaf.dtype}", context))
    if len(leaf.shape) < len(batch_shape):
        raise ValueError(utils.format_error_message(f"leaf {i} has {len(leaf.shape)} dimensions", context))
    if batch_shape != leaf.shape[:len(batch_shape)]:
        raise ValueError(utils.format_error_message(f"leaf {i} had shape {leaf.shape}", context))
''')
variant('c', B, 'ControllerBuilder._define', '''
def _define(self, name, definition, context):
    self._validate_definition_pytree(definition, context)
    return ControllerBuilder(self.state.replace(defaults={**self.defaults, name: definition},
                                                accumulators={**self.accumulators, name: definition},
                                                updates={**self.updates, name: None}))
''')
variant('c', B, 'ControllerBuilder._delete_definition', '''
def _delete_definition(self, name):
    def without(table):
        table = table.copy()
        table.pop(name)
        return table
    return ControllerBuilder(self.state.replace(defaults=without(self.defaults), accumulators=without(self.accumulators),
                                                updates=without(self.updates)))
''')
variant('c', B, 'ControllerBuilder.delete_definition', '''
def delete_definition(self, name):
    new_builder = self._delete_definition(name)
    return new_builder
''')
variant('c', B, 'ControllerBuilder.define_accumulator_directly', '''
def define_accumulator_directly(self, name, definition):
    return self._define(name=name, definition=definition, context="An issue occurred while defining an accumulator directly")
''')
variant('c', B, 'ControllerBuilder.define_accumulator_by_shape', '''
def define_accumulator_by_shape(self, name, shapes, dtype=jnp.float32, fill=0.0):
    if self.defaults.get(name) is not None or name in self.defaults:
        warnings.warn("Accumulator and defaults are being overwritten")
    context_error_message = f"An issue occurred when defining an accumulator named '{name}' directly by shape"
    leaves, tree_def = jax.tree_util.tree_flatten_with_path(shapes, self._is_shape)
    definition = jax.tree_util.tree_unflatten(tree_def, [self._make(path, leaf, fill, dtype, context_error_message) for path, leaf in leaves])
    return self._define(name, definition, context_error_message)

@staticmethod
def _is_shape(node):
    return isinstance(node, list) and all(isinstance(item, int) for item in node)

def _make(self, path, leaf, fill, dtype, context):
    if not self._is_shape(leaf):
        raise ValueError(utils.format_error_message(f"corrupt shapes pytree at {path}: {type(leaf)}", context))
    return jnp.full(leaf, fill, dtype)
''')
variant('c', B, 'ControllerBuilder.new_builder', '''
@classmethod
def new_builder(cls, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
    context_error_message = "An issue occurred while creating a new builder:"
    if core_dtype is not None:
        if not jnp.issubdtype(core_dtype, jnp.floating):
            raise ValueError(utils.format_error_message("dtype of probabilities core must be floating", context_error_message))
    if not 0.0 < epsilon < 1.0:
        raise ValueError(utils.format_error_message("epsilon insane: Not between 0 and 1", context_error_message))
    core = {name: jnp.zeros(batch_shape, core_dtype) for name in ("probabilities", "residuals", "iterations")}
    return cls(ACTStates(epsilon=epsilon, accumulators={}, defaults={}, updates={}, depression_constant=depression_constant, **core))
''')
variant('c', B, 'flatten_builder', '''
def flatten_builder(builder):
    children, structure = jax.tree_util.tree_flatten(builder.state)
    return children, structure
''')
variant('c', W, 'ACTViewer.transform', '''
def transform(self, function):
    def apply_to_all(trees):
        return {name: jax.tree_util.tree_map(function, tree) for name, tree in trees.items()}

    try:
        state = self.state.replace(iterations=function(self.iterations), residuals=function(self.residuals),
                                   probabilities=function(self.probabilities), accumulators=apply_to_all(self.accumulators),
                                   defaults=apply_to_all(self.defaults), updates=apply_to_all(self.updates))
    except Exception as err:
        raise RuntimeError("An issue occurred in using the provided function") from err
    return ACTViewer(state)
''')
variant('c', W, 'ACTViewer.mask_data', '''
def mask_data(self, mask):
    self._validate_mask(mask)
    return self.transform(lambda tensor: jnp.where(utils.setup_left_broadcast(mask, tensor), tensor, 0.0))

def _validate_mask(self, mask):
    if mask.dtype != jnp.bool_:
        raise ValueError(f"Mask was not made up of bool dtypes.")
    expected = self.probabilities.shape
    if mask.shape != expected:
        raise ValueError(f"Mask of shape {mask.shape} does not match batch shape of {expected}")
''')
variant('c', W, 'ACTViewer.halted_only', '''
def halted_only(self):
    return self.mask_data(mask=self.halted_batches)
''')
variant('c', W, 'unflatten_viewer', '''
def unflatten_viewer(tree_def, flat_state):
    return ACTViewer(tree_def.unflatten(flat_state))
''')
variant('c', E, 'TensorEditor._validate_same_shape', '''
@staticmethod
def _validate_same_shape(original, new, info):
    same = original.shape == new.shape
    msg = f"The original tensor had shape {original.shape}. The proposed new tensor has shape {new.shape}."
    checkify.check(same, utils.format_error_message(msg, info))
''')
variant('c', E, 'TensorEditor._validate_same_dtype', '''
@staticmethod
def _validate_same_dtype(original, new, info):
    checkify.check(not original.dtype != new.dtype, utils.format_error_message("dtype differs", info))
''')
variant('c', E, 'TensorEditor._validate_probability', '''
@staticmethod
def _validate_probability(tensor, info):
    in_range = jnp.logical_and(tensor >= 0, tensor <= 1.0)
    checkify.check(jnp.all(in_range), utils.format_error_message("A tensor representing probabilities was not within zero and one", info))
''')
variant('c', E, 'TensorEditor._validate_is_natural_numbers', '''
@staticmethod
def _validate_is_natural_numbers(tensor, context):
    negative = ~(tensor >= 0)
    checkify.check(~jnp.any(negative), utils.format_error_message("not whole numbers", context))
''')
variant('c', E, 'TensorEditor._validate_accumulator_exists', '''
def _validate_accumulator_exists(self, name, context):
    exists = name in self.accumulators
    msg = utils.format_error_message(f"Accumulator of name '{name}' was never setup", context)
    checkify.check(exists, msg)
    return exists
''')
variant('c', E, 'TensorEditor._validate_pytree_leaves', '''
@staticmethod
def _validate_pytree_leaves(original, new, info):
    original_leaves, original_structure = jax.tree_util.tree_flatten(original)
    new_leaves, new_structure = jax.tree_util.tree_flatten(new)
    checkify.check(len(original_leaves) == len(new_leaves), utils.format_error_message("number of leaves", info))
    checkify.check(original_structure == new_structure, utils.format_error_message("None where a leaf was", info))
    for i in range(min(len(original_leaves), len(new_leaves))):
        TensorEditor._validate_same_shape(original_leaves[i], new_leaves[i], info)
        TensorEditor._validate_same_dtype(original_leaves[i], new_leaves[i], info)
''')
variant('c', E, 'TensorEditor._execute_validation', '''
def _execute_validation(self, function):
    if self.error_mode != ErrorModes.standard.value:
        return
    errors, _ = checkify.checkify(function)()
    checkify.check_error(errors) if False else errors.throw()
''')
for _field in ('probabilities', 'residuals', 'iterations'):
    variant('c', E, f'TensorEditor.set_{_field}', f'''
def set_{_field}(self, values):
    def check_for_errors():
        context_message = "An issue occurred while attempting to set {_field} with an Editor: "
        current = self.state.{_field}
        self._validate_same_dtype(current, values, context_message)
        self._validate_same_shape(current, values, context_message)
        self.{'_validate_is_natural_numbers' if _field == 'iterations' else '_validate_probability'}(values, context_message)
    self._execute_validation(check_for_errors)
    return TensorEditor(error_mode=self.error_mode, state=self.state.replace({_field}=values))
''')
variant('c', E, 'TensorEditor.set_epsilon', '''
def set_epsilon(self, epsilon):
    def check_for_errors():
        self._validate_epsilon(epsilon, "An error occurred while setting to an epsilon using an Editor")
    self._execute_validation(check_for_errors)
    state = self.state.replace(epsilon=epsilon)
    return TensorEditor(state, self.error_mode)

@staticmethod
def _validate_epsilon(epsilon, context):
    checkify.check(epsilon <= 1.0, utils.format_error_message(f"Epsilon was too high, got {epsilon}", context))
    checkify.check(epsilon >= 0.0, utils.format_error_message(f"Epsilon was too low, got {epsilon}", context))
''')
variant('c', E, 'TensorEditor.set_accumulator', '''
def set_accumulator(self, name, value):
    def check_for_errors():
        context = "An error occurred while setting to an accumulator with an Editor:"
        self._validate_replacement(name, value, context)
    self._execute_validation(check_for_errors)
    return TensorEditor(self.state.replace(accumulators={**self.accumulators, name: value}), self.error_mode)

def _validate_replacement(self, name, value, context):
    if not self._validate_accumulator_exists(name, context):
        return
    self._validate_same_pytree_structure(self.accumulators[name], value, context)
    self._validate_pytree_leaves(self.accumulators[name], value, context)
''')
variant('c', E, 'TensorEditor.set_updates', '''
def set_updates(self, name, values):
    def check_for_errors():
        context = f"An error occurred while setting to an update entry named '{name}' with an Editor"
        self._validate_accumulator_exists(name, context)
        if values is None:
            return
        expected = self.defaults[name]
        self._validate_same_pytree_structure(expected, values, context)
        self._validate_pytree_leaves(expected, values, context)
    self._execute_validation(check_for_errors)
    updates = dict(self.updates)
    updates.update({name: values})
    return TensorEditor(self.state.replace(updates=updates), self.error_mode)
''')
variant('c', E, 'TensorEditor.edit_controller', '''
@classmethod
def edit_controller(cls, controller, error_mode=ErrorModes.standard.value):
    return cls.edit_save(controller.state, error_mode)
''')
variant('c', E, 'TensorEditor.build', '''
def build(self):
    controller = ACT_Controller(self.state)
    return controller
''')
variant('c', E, 'flatten_editor', '''
def flatten_editor(editor):
    flat_state, tree_def = jax.tree_util.tree_flatten(editor.save())
    return flat_state, (editor.error_mode, tree_def)
''')
variant('c', T, 'ACTStates.replace', '''
def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None, defaults=None, updates=None,
            depression_constant=None, error_mode=None):
    def pick(new, old):
        return old if new is None else new

    return ACTStates(epsilon=pick(epsilon, self.epsilon), iterations=pick(iterations, self.iterations), residuals=pick(residuals, self.residuals),
                     probabilities=pick(probabilities, self.probabilities), defaults=pick(defaults, self.defaults),
                     accumulators=pick(accumulators, self.accumulators), updates=pick(updates, self.updates),
                     depression_constant=pick(depression_constant, self.depression_constant), error_mode=pick(error_mode, self.error_mode))
''')
variant('c', T, 'state_flatten', '''
def state_flatten(state):
    names = [item.name for item in fields(state)]
    flattened = [jax.tree_util.tree_flatten(getattr(state, name)) for name in names]
    return zip(names, [values for values, _ in flattened]), [aux for _, aux in flattened]
''')
variant('c', T, 'state_unflatten', '''
def state_unflatten(aux_data, flat_state):
    return ACTStates(*[jax.tree_util.tree_unflatten(tree_def, value) for value, tree_def in zip(flat_state, aux_data)])
''')
variant('c', M, 'Immutable.__setattr__', '''
def __setattr__(self, key, value):
    frozen = getattr(self, '_is_immutable', False)
    if frozen and key != '_is_immutable':
        raise AttributeError("Cannot modify immutable object")
    super().__setattr__(key, value)
''')
variant('c', A, 'ACTMetaData.increase_counter', '''
def increase_counter(self):
    return ACTMetaData(num_iterations=1 + self.num_iterations, max_num_iterations=self.max_num_iterations)
''')
variant('c', A, 'AbstractACTTemplate._is_act_not_complete', '''
@staticmethod
def _is_act_not_complete(combined_state):
    controller, _, metadata = combined_state
    still_running = jnp.logical_not(controller.is_completely_halted)
    has_budget = metadata.num_iterations < metadata.max_num_iterations
    return still_running & has_budget
''')
variant('c', A, 'AbstractACTTemplate._while_loop_adapter_factory', '''
@staticmethod
def _while_loop_adapter_factory(layer):
    def run_layer_adapter(combined):
        controller, state, metadata = combined
        update = layer.run_iteration(controller, state)
        return update[0], update[1], metadata.increase_counter()
    return run_layer_adapter
''')
variant('c', A, 'AbstractACTTemplate.execute_act', '''
def execute_act(self, initial_state, depression_constant=1.0, max_iterations=10, check_for_errors=True, *args, **kwargs):
    act_layer = ContractValidationWrapper(self, check_errors=check_for_errors)
    controller = act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)
    self.setup_lazy_parameters(controller, initial_state)
    metadata = ACTMetaData(0, max_iterations)
    output = jax.lax.while_loop(cond_fun=self._is_act_not_complete,
                                body_fun=self._while_loop_adapter_factory(act_layer),
                                init_val=(controller, initial_state, metadata))
    return output[0], output[1]
''')
variant('c', L, 'ContractValidationWrapper._validate_all_act_updates_committed', '''
@staticmethod
def _validate_all_act_updates_committed(controller, context):
    msg = None
    if controller.updates_ready_to_commit:
        msg = "All accumulators were filled, but you never committed the updates."
    elif controller.has_cached_updates:
        msg = "Controller had uncommitted updates and is not ready to commit."
    if msg is not None:
        raise RuntimeError(utils.format_error_message(msg, context))
''')
variant('c', L, 'ContractValidationWrapper._execute_validation', '''
def _execute_validation(self, function):
    if self.check_errors is not True:
        return
    function()
''')
variant('c', L, 'ContractValidationWrapper.run_iteration', '''
def run_iteration(self, controller, state):
    update = self.layer.run_iteration(controller, state)
    self._execute_validation(lambda: self._validate_update(controller, update))
    return update

def _validate_update(self, controller, update):
    context_message = "An issue occurred while validating the execution of run_iteration"
    self._validate_is_tuple(update, context_message)
    self._validate_length_two(update, context_message)
    new_controller = update[0]
    self._validate_is_controller(new_controller, context_message)
    self._validate_is_novel_controller(controller, new_controller, context_message)
    self._validate_all_act_updates_committed(new_controller, context_message)
''')
variant('c', L, 'AbstractControllerContract.new_builder', '''
def new_builder(cls, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
    return ControllerBuilder.new_builder(batch_shape=batch_shape, core_dtype=core_dtype, epsilon=epsilon,
                                         depression_constant=depression_constant)
''')
variant('c', F, 'FlaxACTLayer.setup_lazy_parameters', '''
def setup_lazy_parameters(self, controller, state):
    if not self.is_mutable_collection("params"):
        return
    self.run_iteration(controller, state)
''')


# ------------------------------------------------------------------ d: other idioms (map, while, partial, dataclasses.replace, dict union, try/else, walrus)
variant('d', C, 'ACT_Controller._process_probabilities', '''
def _process_probabilities(self, halting_probabilities):
    halting_probabilities = jnp.multiply(self.depression_constant, halting_probabilities)
    will_be_halted = jnp.add(halting_probabilities, self.probabilities) > self.halt_threshold
    raw_residuals = jnp.subtract(1.0, self.probabilities)
    residuals = jnp.where(self.halted_batches, self.residuals, jnp.where(will_be_halted, raw_residuals, self.residuals))
    halting_probabilities = jnp.where(will_be_halted, raw_residuals, halting_probabilities)
    probabilities = jnp.add(self.probabilities, halting_probabilities)
    return halting_probabilities, residuals, probabilities
''')
variant('d', C, 'ACT_Controller._update_accumulator', '''
def _update_accumulator(self, accumulator_value, update_value, halting_probabilities):
    if update_value is None:
        raise RuntimeError("There was no cached update stored for this act iteration.")
    if not (accumulator_value.shape == update_value.shape):
        raise RuntimeError("shapes differ")
    halted_batches, halting_probabilities = (utils.setup_left_broadcast(x, accumulator_value) for x in (self.halted_batches, halting_probabilities))
    increment = halting_probabilities * update_value
    new_accumulators = accumulator_value + increment
    not_halted = jnp.broadcast_to(~halted_batches, new_accumulators.shape)
    return jax.lax.select(not_halted, new_accumulators, accumulator_value)
''')
variant('d', C, 'ACT_Controller.iterate_act', '''
def iterate_act(self, halting_probabilities):
    if self.probabilities.shape != halting_probabilities.shape:
        raise ValueError("Batch shape and shapes of halting probabilities do not match")
    halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)
    halting_probabilities, residuals, probabilities = self._process_probabilities(halting_probabilities)
    accumulators = {}
    for name in self.accumulators.keys():
        try:
            if (update_tree := self.state.updates[name]) is None:
                raise RuntimeError(f"Update tree of name '{name}' was never set.")
            update_function = functools.partial(self._update_accumulator, halting_probabilities=halting_probabilities)
            new_accumulator = utils.merge_pytrees(update_function, self.accumulators[name], update_tree)
        except Exception as err:
            raise RuntimeError(f"An error occurred regarding accumulator named '{name}'").with_traceback(err.__traceback__) from err
        else:
            accumulators[name] = new_accumulator
    running = ~self.halted_batches
    return ACT_Controller(dataclasses.replace(self.state, iterations=self.iterations + running, residuals=residuals, probabilities=probabilities,
                                              accumulators=accumulators, updates=dict.fromkeys(self.state.updates)))
''')
variant('d', C, None, '''
import dataclasses
import functools
''')
variant('d', C, 'ACT_Controller.reset_batches', '''
def reset_batches(self):
    for key in self.state.updates:
        if self.state.updates[key] is None:
            continue
        raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
    halted = self.halted_batches
    zeros = jnp.zeros_like(self.probabilities)
    accumulators = {}
    for name, accumulator in self.accumulators.items():
        accumulators[name] = utils.merge_pytrees(functools.partial(self._reset_leaf, halted), accumulator, self.state.defaults[name])
    return ACT_Controller(self.state.replace(residuals=jnp.where(halted, zeros, self.residuals),
                                             probabilities=jnp.where(halted, zeros, self.probabilities),
                                             iterations=jnp.where(halted, zeros, self.iterations),
                                             accumulators=accumulators))

@staticmethod
def _reset_leaf(halted, accumulator_leaf, default_leaf):
    selector = jnp.broadcast_to(utils.setup_left_broadcast(halted, accumulator_leaf), accumulator_leaf.shape)
    return jnp.where(selector, default_leaf, accumulator_leaf)
''')
variant('d', C, 'ACT_Controller.cache_update', '''
def cache_update(self, name, item):
    state = self.state
    if not name in state.updates:
        raise ValueError(f"Accumulator with name {name} was never setup")
    if not state.updates.get(name) is None:
        raise RuntimeError(f"Accumulator with name {name} was already set this iteration!")
    return ACT_Controller(state.replace(updates=state.updates | {name: item}))
''')
variant('d', C, 'ACT_Controller.updates_ready_to_commit', '''
@property
def updates_ready_to_commit(self):
    return None not in [type(None) and (None if value is None else True) for value in self.state.updates.values()]
''')
variant('d', C, 'ACT_Controller.has_cached_updates', '''
@property
def has_cached_updates(self):
    return len([key for key, update in self.state.updates.items() if update is not None]) > 0
''')
variant('d', C, 'ACT_Controller.is_completely_halted', '''
@property
def is_completely_halted(self):
    return ~jnp.any(self.probabilities <= self.halt_threshold)
''')
variant('d', U, 'setup_left_broadcast', '''
def setup_left_broadcast(tensor, target):
    if tensor.ndim == 0:
        return tensor
    assert tensor.ndim <= target.ndim
    return tensor[(...,) + (None,) * (target.ndim - tensor.ndim)]
''')
variant('d', U, 'merge_pytrees', '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    primary_leaves, treedef = jax.tree_util.tree_flatten(primary_tree)
    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)
    assert len(primary_leaves) == len(auxilary_leaves)
    return jax.tree_util.tree_unflatten(treedef, list(map(function, primary_leaves, auxilary_leaves)))
''')
variant('d', U, 'are_pytree_structure_equal', '''
def are_pytree_structure_equal(tree_one, tree_two):
    blank = functools.partial(jax.tree_util.tree_map, lambda x: None)
    return jax.tree_util.tree_structure(blank(tree_one)) == jax.tree_util.tree_structure(blank(tree_two))
''')
variant('d', U, None, '''
import functools
''')
variant('d', U, 'are_pytrees_equal', '''
def are_pytrees_equal(tree_one, tree_two, use_allclose=True):
    leaves_one, structure_one = jax.tree_util.tree_flatten(tree_one)
    leaves_two, structure_two = jax.tree_util.tree_flatten(tree_two)
    if structure_one != structure_two:
        return False
    i = 0
    while i < len(leaves_one):
        leaf_one, leaf_two = leaves_one[i], leaves_two[i]
        i += 1
        if type(leaf_one) != type(leaf_two):
            return False
        if isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
            if leaf_one.shape != leaf_two.shape:
                return False
            if use_allclose and not jnp.allclose(leaf_one, leaf_two):
                return False
            if not use_allclose and not jnp.all(leaf_one == leaf_two):
                return False
        elif not leaf_one == leaf_two:
            return False
    return True
''')
variant('d', U, 'can_right_broadcast', '''
def can_right_broadcast(array_a, array_b):
    a_shape, b_shape = array_a.shape[::-1], array_b.shape[::-1]
    mismatches = [(a, b) for a, b in zip(a_shape, b_shape) if a != b and a != 1 and b != 1]
    return not mismatches
''')
variant('d', U, '_count_linked_leaves', '''
def _count_linked_leaves(treedef):
    return treedef.num_leaves
''')
variant('d', U, '_replicate_leaves', '''
def _replicate_leaves(source_treedef, target_treedef, source_leaves_queue, context_message):
    queue = source_leaves_queue.copy()
    if jax.tree_util.treedef_is_leaf(source_treedef):
        if _is_empty_collection(source_treedef):
            if source_treedef == target_treedef:
                return [], queue
            raise RuntimeError(format_error_message("Source tree had an empty node", context_message))
        node_to_repeat, *queue = queue
        return _repeat_node(node_to_repeat, _count_linked_leaves(target_treedef)), queue
    if jax.tree_util.treedef_is_leaf(target_treedef):
        raise RuntimeError(format_error_message("Source tree had pytree branch node", context_message))
    _validate_children_descent(source_treedef, target_treedef, context_message)
    output = []
    source_children, target_children = source_treedef.children(), target_treedef.children()
    for i in range(len(source_children)):
        try:
            update, queue = _replicate_leaves(source_children[i], target_children[i], queue, context_message)
        except Exception as err:
            raise RuntimeError(format_error_message(f"Issue occurred between trees on child {i}", context_message)) from err
        output = output + update
    return output, queue
''')
variant('d', U, '_validate_children_descent', '''
def _validate_children_descent(source_treenode, target_treenode, context_string):
    source_class, source_keys = source_treenode.node_data()
    target_class, target_keys = target_treenode.node_data()
    problem = None
    if source_class is not target_class:
        problem = f"type {source_class} and {target_class}"
    elif len(source_treenode.children()) != len(target_treenode.children()):
        problem = "number of children"
    elif not source_keys == target_keys:
        problem = "keys"
    if problem is not None:
        raise RuntimeError(format_error_message(problem, context_string))
''')
variant('d', U, 'execute_binary_operator', '''
def execute_binary_operator(operator, operand_a, operand_b, context_msg):
    try:
        try:
            broadcast_a = broadcast_pytree_shape(operand_a, operand_b)
            broadcast_b = operand_b
        except RuntimeError:
            broadcast_a = operand_a
            broadcast_b = broadcast_pytree_shape(operand_b, operand_a)
    except Exception as err:
        raise RuntimeError(format_error_message("An issue occurred while setting up the pytrees", context_msg)) from err

    def apply(pair):
        leaf_a, leaf_b = pair
        try:
            if leaf_a.ndim < leaf_b.ndim:
                leaf_a = setup_left_broadcast(leaf_a, target=leaf_b)
            elif leaf_a.ndim != leaf_b.ndim:
                leaf_b = setup_left_broadcast(leaf_b, target=leaf_a)
            return operator(leaf_a, leaf_b)
        except Exception as err:
            raise RuntimeError(format_error_message("failed on leafs", context_msg)) from err

    pairs = zip(jax.tree_util.tree_leaves(broadcast_a), jax.tree_util.tree_leaves(broadcast_b))
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(broadcast_a), [apply(pair) for pair in pairs])
''')
variant('d', B, 'ControllerBuilder._define', '''
def _define(self, name, definition, context):
    self._validate_definition_pytree(definition, context)
    state = dataclasses.replace(self.state, defaults=self.defaults | {name: definition}, accumulators=self.accumulators | {name: definition},
                                updates=self.updates | {name: None})
    return type(self)(state)
''')
variant('d', B, None, '''
import dataclasses
''')
variant('d', B, 'ControllerBuilder._delete_definition', '''
def _delete_definition(self, name):
    if name not in self.accumulators:
        raise KeyError(name)
    tables = []
    for table in (self.defaults, self.accumulators, self.updates):
        tables.append({key: value for key, value in table.items() if key != name})
    defaults, accumulators, updates = tables
    return ControllerBuilder(self.state.replace(defaults=defaults, accumulators=accumulators, updates=updates))
''')
variant('d', B, 'ControllerBuilder._validate_definition_pytree', '''
def _validate_definition_pytree(self, pytree, context):
    batch_shape = self.probabilities.shape
    num = self.probabilities.ndim
    i = 0
    for leaf in jax.tree_util.tree_leaves(pytree):
        if not jnp.issubdtype(leaf, jnp.floating):
            raise TypeError(utils.format_error_message(f"leaf {i} is of dtype {leaf.dtype}", context))
        if num > leaf.ndim:
            raise ValueError(utils.format_error_message(f"leaf {i} has too few dimensions", context))
        for have, want in zip(leaf.shape, batch_shape):
            if have != want:
                raise ValueError(utils.format_error_message(f"leaf {i} had shape {leaf.shape}", context))
        i += 1
''')
variant('d', W, 'ACTViewer.transform', '''
def transform(self, function):
    try:
        core = [function(tensor) for tensor in (self.iterations, self.residuals, self.probabilities)]
        trees = []
        for group in (self.accumulators, self.defaults, self.updates):
            new = {}
            for name, value in group.items():
                new[name] = None if value is None else jax.tree_util.tree_map(function, value)
            trees.append(new)
    except Exception as err:
        raise RuntimeError("An issue occurred in using the provided function") from err
    state = self.state.replace(iterations=core[0], residuals=core[1], probabilities=core[2], accumulators=trees[0], defaults=trees[1], updates=trees[2])
    return ACTViewer(state)
''')
variant('d', W, 'ACTViewer.mask_data', '''
def mask_data(self, mask):
    if mask.dtype != jnp.bool_:
        raise ValueError("Mask was not made up of bool dtypes.")
    if mask.shape != self.probabilities.shape:
        raise ValueError("Mask does not match batch shape")
    return self.transform(jax.tree_util.Partial(self._mask_tensor, mask))

@staticmethod
def _mask_tensor(mask, tensor):
    return jnp.where(utils.setup_left_broadcast(mask, tensor), tensor, jnp.zeros_like(tensor))
''')
variant('d', E, 'TensorEditor._validate_pytree_leaves', '''
@staticmethod
def _validate_pytree_leaves(original, new, info):
    original_leaves = jax.tree_util.tree_leaves(original)
    new_leaves = jax.tree_util.tree_leaves(new)
    same_count = len(original_leaves) == len(new_leaves)
    checkify.check(same_count, utils.format_error_message("number of leaves", info))
    checkify.check(jax.tree_util.tree_structure(original) == jax.tree_util.tree_structure(new), utils.format_error_message("structure", info))

    def check_leaf(i, original_leaf, new_leaf):
        for attribute in ("shape", "dtype"):
            before, after = getattr(original_leaf, attribute), getattr(new_leaf, attribute)
            checkify.check(before == after, utils.format_error_message(f"leaf {i} {attribute}: {before} {after}", info))

    for i, pair in enumerate(zip(original_leaves, new_leaves)):
        check_leaf(i, *pair)
''')
variant('d', E, 'TensorEditor.set_updates', '''
def set_updates(self, name, values):
    self._execute_validation(lambda: self._check_update(name, values))
    updates = {key: value for key, value in self.updates.items()}
    updates[name] = values
    return self._edited(updates=updates)

def _edited(self, **changes):
    return TensorEditor(self.state.replace(**changes), self.error_mode)

def _check_update(self, name, values):
    context = f"An error occurred while setting to an update entry named '{name}' with an Editor"
    self._validate_accumulator_exists(name, context)
    if values is not None:
        for validate in (self._validate_same_pytree_structure, self._validate_pytree_leaves):
            validate(self.defaults[name], values, context)
''')
variant('d', E, 'TensorEditor.edit_save', '''
@classmethod
def edit_save(cls, save, error_mode=ErrorModes.standard.value):
    try:
        ErrorModes(error_mode)
    except ValueError:
        raise ValueError(f"Error mode must have been within {[item.value for item in ErrorModes]}") from None
    return cls(state=save, error_mode=error_mode)
''')
variant('d', T, 'state_flatten', '''
def state_flatten(state):
    children = []
    structures = []
    for item in fields(state):
        leaves, structure = jax.tree_util.tree_flatten(getattr(state, item.name))
        children.append((item.name, leaves))
        structures.append(structure)
    return children, structures
''')
variant('d', T, 'ACTStates.replace', '''
def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None, defaults=None, updates=None,
            depression_constant=None, error_mode=None):
    changes = dict(epsilon=epsilon, iterations=iterations, residuals=residuals, probabilities=probabilities, accumulators=accumulators,
                   defaults=defaults, updates=updates, depression_constant=depression_constant, error_mode=error_mode)
    return dataclasses.replace(self, **{name: value for name, value in changes.items() if value is not None})
''')
variant('d', T, None, '''
import dataclasses
''')
variant('d', M, 'Immutable.__setattr__', '''
def __setattr__(self, key, value):
    try:
        locked = self._is_immutable
    except AttributeError:
        locked = False
    if key == '_is_immutable' or not locked:
        object.__setattr__(self, key, value)
    else:
        raise AttributeError("Cannot modify immutable object")
''')
variant('d', A, 'AbstractACTTemplate._is_act_not_complete', '''
@staticmethod
def _is_act_not_complete(combined_state):
    controller, metadata = combined_state[0], combined_state[2]
    return jnp.logical_not(jnp.logical_or(controller.is_completely_halted, metadata.num_iterations >= metadata.max_num_iterations))
''')
variant('d', A, 'AbstractACTTemplate.execute_act', '''
def execute_act(self, initial_state, depression_constant=1.0, max_iterations=10, check_for_errors=True, *args, **kwargs):
    wrapper = ContractValidationWrapper(self, check_for_errors)
    controller = wrapper.make_controller(initial_state, depression_constant, *args, **kwargs)
    self.setup_lazy_parameters(controller, initial_state)

    def body(carry):
        controller, state, metadata = carry
        controller, state = wrapper.run_iteration(controller, state)
        return controller, state, metadata.increase_counter()

    carry = (controller, initial_state, ACTMetaData(num_iterations=0, max_num_iterations=max_iterations))
    controller, final_state, _ = jax.lax.while_loop(self._is_act_not_complete, body, carry)
    return controller, final_state
''')
variant('d', L, 'ContractValidationWrapper.run_iteration', '''
def run_iteration(self, controller, state):
    update = self.layer.run_iteration(controller, state)
    if self.check_errors is True:
        context = "An issue occurred while validating the execution of run_iteration"
        if not isinstance(update, tuple):
            raise TypeError(utils.format_error_message(f"Expected tuple, got {type(update)}", context))
        if len(update) != 2:
            raise RuntimeError(utils.format_error_message("Expected length two", context))
        new_controller, _ = update
        for check in (lambda: self._validate_is_controller(new_controller, context),
                      lambda: self._validate_is_novel_controller(controller, new_controller, context),
                      lambda: self._validate_all_act_updates_committed(new_controller, context)):
            check()
    return update
''')
# ------------------------------------------------------------------ e: a fifth hand: extracted helpers, rewritten loops, reordered statements
variant('e', C, 'ACT_Controller.updates_ready_to_commit', '''
@property
def updates_ready_to_commit(self) -> bool:
    for update in self.state.updates.values():
        if update is None:
            return False
    return True
''')
variant('e', C, 'ACT_Controller.has_cached_updates', '''
@property
def has_cached_updates(self) -> bool:
    pending = [update for update in self.state.updates.values() if update is not None]
    return len(pending) > 0
''')
variant('e', C, 'ACT_Controller._process_probabilities', '''
def _crossing(self, increment):
    return (self.probabilities + increment) > self.halt_threshold

def _process_probabilities(self, halting_probabilities):
    increment = halting_probabilities * self.depression_constant
    crossing = self._crossing(increment)
    remainder = 1 - self.probabilities
    clamped = jax.lax.select(crossing, remainder, increment)
    first_time = jnp.logical_and(crossing, jnp.logical_not(self.halted_batches))
    return (clamped,
            jax.lax.select(first_time, remainder, self.residuals),
            self.probabilities + clamped)
''')
variant('e', C, 'ACT_Controller._update_accumulator', '''
def _update_accumulator(self, accumulator_value, update_value, halting_probabilities):
    self._check_update_leaf(accumulator_value, update_value)
    shape = accumulator_value.shape
    frozen, weights = [utils.setup_left_broadcast(item, accumulator_value)
                       for item in (self.halted_batches, halting_probabilities)]
    candidate = weights * update_value + accumulator_value
    return jax.lax.select(jnp.broadcast_to(frozen, shape), accumulator_value, candidate)

@staticmethod
def _check_update_leaf(accumulator_value, update_value):
    problem = None
    if update_value is None:
        problem = "There was no cached update stored for this act iteration."
    elif accumulator_value.shape != update_value.shape:
        problem = f"Original leaf of shape {accumulator_value.shape} does not match update leaf of shape {update_value.shape}"
    if problem is not None:
        raise RuntimeError(textwrap.dedent(problem))
''')
variant('e', C, 'ACT_Controller.cache_update', '''
def cache_update(self, name: str, item: PyTree) -> 'ACT_Controller':
    pending = self.state.updates
    try:
        current = pending[name]
    except KeyError:
        raise ValueError(f"Accumulator with name {name} was never setup") from None
    if current is not None:
        raise RuntimeError(f"Accumulator with name {name} was already set this iteration!")
    return ACT_Controller(self.state.replace(updates={**pending, name: item}))
''')
variant('e', C, 'ACT_Controller.iterate_act', '''
def iterate_act(self, halting_probabilities: jnp.ndarray) -> 'ACT_Controller':
    if halting_probabilities.shape != self.probabilities.shape:
        raise ValueError("Batch shape and shapes of halting probabilities do not match")
    weights, residuals, probabilities = self._process_probabilities(jnp.clip(halting_probabilities, 0.0, 1.0))
    accumulators = {}
    updates = self.state.updates.copy()
    for name, accumulator_tree in self.accumulators.items():
        accumulators[name] = self._commit(name, accumulator_tree, updates[name], weights)
        updates[name] = None
    iterations = jax.lax.select(self.halted_batches, self.iterations, self.iterations + 1)
    return ACT_Controller(self.state.replace(iterations=iterations, residuals=residuals, probabilities=probabilities,
                                             accumulators=accumulators, updates=updates))

def _commit(self, name, accumulator_tree, update_tree, weights):
    def commit_leaf(accumulator_leaf, update_leaf):
        return self._update_accumulator(accumulator_leaf, update_leaf, weights)
    try:
        if update_tree is None:
            raise RuntimeError(f"Update tree of name '{name}' was never set.")
        return utils.merge_pytrees(commit_leaf, accumulator_tree, update_tree)
    except Exception as err:
        msg = f"An error occurred regarding accumulator named '{name}': \\n\\n"
        raise RuntimeError(msg).with_traceback(err.__traceback__) from err
''')
variant('e', C, 'ACT_Controller.reset_batches', '''
def reset_batches(self) -> 'ACT_Controller':
    if self.has_cached_updates:
        raise RuntimeError("Attempt to reset batches while updates are pending. Finish current iteration.")
    keep = ~self.halted_batches

    def restore(accumulator_leaf, default_leaf):
        selector = jnp.broadcast_to(utils.setup_left_broadcast(keep, accumulator_leaf), accumulator_leaf.shape)
        return jax.lax.select(selector, accumulator_leaf, default_leaf)

    defaults = self.state.defaults
    core = {field: getattr(self, field) * keep for field in ("residuals", "probabilities", "iterations")}
    accumulators = {name: utils.merge_pytrees(restore, tree, defaults[name]) for name, tree in self.accumulators.items()}
    return ACT_Controller(self.state.replace(accumulators=accumulators, **core))
''')
variant('e', C, 'ACT_Controller.halted_batches', '''
@property
def halted_batches(self) -> jnp.ndarray:
    return jnp.greater(self.probabilities, self.halt_threshold)
''')
variant('e', U, 'can_right_broadcast', '''
def can_right_broadcast(array_a, array_b):
    def compatible(a_dim, b_dim):
        return a_dim == b_dim or 1 in (a_dim, b_dim)
    overlap = min(array_a.ndim, array_b.ndim)
    for i in range(1, overlap + 1):
        if not compatible(array_a.shape[-i], array_b.shape[-i]):
            return False
    return True
''')
variant('e', U, 'broadcast_pytree_shape', '''
def broadcast_pytree_shape(source, target_structure):
    error_context = "An issue occurred while trying to broadcast two pytrees together: "
    leaves, source_treedef = jax.tree_util.tree_flatten(source)
    target_treedef = jax.tree_util.tree_structure(target_structure)
    final_leaves, remainder = _replicate_leaves(source_treedef, target_treedef, leaves, error_context)
    assert len(final_leaves) == target_treedef.num_leaves, "error 1: This should never happen. Yell at maintainer"
    assert not remainder, "error 2: This should never happen. Yell at maintainer"
    return jax.tree_util.tree_unflatten(target_treedef, final_leaves)
''')
variant('e', U, 'execute_binary_operator', '''
def _matching_trees(operand_a, operand_b, context_msg):
    try:
        try:
            return broadcast_pytree_shape(operand_a, operand_b), operand_b
        except RuntimeError:
            return operand_a, broadcast_pytree_shape(operand_b, operand_a)
    except Exception as err:
        msg = format_error_message("The operands could not be made compatible.", context_msg)
        raise RuntimeError(msg) from err

def _align_leaves(leaf_a, leaf_b):
    if leaf_a.ndim < leaf_b.ndim:
        return setup_left_broadcast(leaf_a, target=leaf_b), leaf_b
    if leaf_a.ndim > leaf_b.ndim:
        return leaf_a, setup_left_broadcast(leaf_b, target=leaf_a)
    return leaf_a, leaf_b

def execute_binary_operator(operator, operand_a, operand_b, context_msg):
    operand_a, operand_b = _matching_trees(operand_a, operand_b, context_msg)
    leaves_a, tree_def = jax.tree_util.tree_flatten(operand_a)
    leaves_b = jax.tree_util.tree_leaves(operand_b)
    output = []
    for i, pair in enumerate(zip(leaves_a, leaves_b)):
        try:
            output.append(operator(*_align_leaves(*pair)))
        except Exception as err:
            msg = format_error_message(f"The operator failed on leafs '{i}'", context_msg)
            raise RuntimeError(msg) from err
    return tree_def.unflatten(output)
''')
variant('e', U, 'setup_left_broadcast', '''
def setup_left_broadcast(tensor, target):
    if tensor.ndim == 0:
        return tensor
    missing = target.ndim - tensor.ndim
    assert missing >= 0
    for _ in range(missing):
        tensor = jnp.expand_dims(tensor, -1)
    return tensor
''')
variant('e', U, 'merge_pytrees', '''
def merge_pytrees(function, primary_tree, auxilary_tree):
    primary_leaves, treedef = jax.tree_util.tree_flatten(primary_tree)
    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)
    assert len(primary_leaves) == len(auxilary_leaves)
    merged = [function(primary, auxilary_leaves[i]) for i, primary in enumerate(primary_leaves)]
    return jax.tree_util.tree_unflatten(treedef, merged)
''')
variant('e', U, 'are_pytree_structure_equal', '''
def are_pytree_structure_equal(tree_one, tree_two):
    def skeleton(tree):
        hollow = jax.tree_util.tree_map(lambda _: None, tree)
        return jax.tree_util.tree_structure(hollow)
    return skeleton(tree_one) == skeleton(tree_two)
''')
variant('e', U, 'are_pytrees_equal', '''
def _leaves_equal(leaf_one, leaf_two, use_allclose):
    if type(leaf_one) != type(leaf_two):
        return False
    if not isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
        return leaf_one == leaf_two
    if leaf_one.shape != leaf_two.shape:
        return False
    return jnp.allclose(leaf_one, leaf_two) if use_allclose else jnp.all(leaf_one == leaf_two)

def are_pytrees_equal(tree_one, tree_two, use_allclose=True):
    leaves_one, def_one = jax.tree_util.tree_flatten(tree_one)
    leaves_two, def_two = jax.tree_util.tree_flatten(tree_two)
    if def_one != def_two:
        return False
    for leaf_one, leaf_two in zip(leaves_one, leaves_two):
        if not _leaves_equal(leaf_one, leaf_two, use_allclose):
            return False
    return True
''')
variant('e', U, '_count_linked_leaves', '''
def _count_linked_leaves(treedef):
    if jax.tree_util.treedef_is_leaf(treedef):
        return 0 if _is_empty_collection(treedef) else 1
    return sum(_count_linked_leaves(child) for child in jax.tree_util.treedef_children(treedef))
''')
variant('e', U, '_repeat_node', '''
def _repeat_node(source_leaf, num_times):
    return [source_leaf for _ in range(num_times)]
''')
variant('e', U, '_replicate_leaves', '''
def _replicate_at_leaf(source_treedef, target_treedef, queue, context_message):
    if _is_empty_collection(source_treedef):
        if source_treedef == target_treedef:
            return [], queue
        msg = f"Source tree had an empty node {source_treedef} where target had {target_treedef}."
        raise RuntimeError(format_error_message(msg, context_message))
    first, *rest = queue
    return _repeat_node(first, _count_linked_leaves(target_treedef)), rest

def _replicate_leaves(source_treedef, target_treedef, source_leaves_queue, context_message):
    queue = list(source_leaves_queue)
    if jax.tree_util.treedef_is_leaf(source_treedef):
        return _replicate_at_leaf(source_treedef, target_treedef, queue, context_message)
    if jax.tree_util.treedef_is_leaf(target_treedef):
        raise RuntimeError(format_error_message("Source tree was not broadcastable.", context_message))
    _validate_children_descent(source_treedef, target_treedef, context_message)
    output = []
    children = zip(source_treedef.children(), target_treedef.children())
    for i, (source_node, target_node) in enumerate(children):
        try:
            section, queue = _replicate_leaves(source_node, target_node, queue, context_message)
        except Exception as err:
            msg = f"Issue occurred between trees on child {i}: {source_treedef} {target_treedef}"
            raise RuntimeError(format_error_message(msg, context_message)) from err
        output.extend(section)
    return output, queue
''')
variant('e', U, 'jit_and_checkify', '''
def jit_and_checkify(function):
    compiled = jax.jit(checkify.checkify(function))
    def run(*args, **kwargs):
        error, result = compiled(*args, **kwargs)
        error.throw()
        return result
    return run
''')
variant('e', B, 'ControllerBuilder._validate_definition_pytree', '''
def _validate_definition_pytree(self, pytree, context):
    for i, leaf in enumerate(jax.tree_util.tree_leaves(pytree)):
        self._validate_definition_leaf(i, leaf, context)

def _validate_definition_leaf(self, i, leaf, context):
    if not jnp.issubdtype(leaf, jnp.floating):
        raise TypeError(utils.format_error_message(f"leaf {i} was of dtype {leaf.dtype}", context))
    batch_shape = self.probabilities.shape
    rank = len(batch_shape)
    if len(leaf.shape) < rank:
        raise ValueError(utils.format_error_message(f"leaf {i} had {len(leaf.shape)} dimensions, not {rank}", context))
    if leaf.shape[:rank] != batch_shape:
        raise ValueError(utils.format_error_message(f"leaf {i} had shape {leaf.shape[:rank]}, not {batch_shape}", context))
''')
variant('e', B, 'ControllerBuilder._define', '''
def _define(self, name, definition, context):
    self._validate_definition_pytree(definition, context)
    additions = {"defaults": definition, "accumulators": definition, "updates": None}
    changed = {}
    for field, value in additions.items():
        collection = getattr(self, field).copy()
        collection[name] = value
        changed[field] = collection
    return ControllerBuilder(self.state.replace(**changed))
''')
variant('e', B, 'ControllerBuilder._delete_definition', '''
def _delete_definition(self, name):
    if name not in self.defaults or name not in self.accumulators or name not in self.updates:
        raise KeyError(name)
    without = lambda collection: {key: value for key, value in collection.items() if key != name}
    return ControllerBuilder(self.state.replace(defaults=without(self.defaults),
                                                accumulators=without(self.accumulators),
                                                updates=without(self.updates)))
''')
variant('e', B, 'ControllerBuilder.define_accumulator_by_shape', '''
def define_accumulator_by_shape(self, name, shapes, dtype=jnp.float32, fill=0.0):
    if name in self.defaults:
        warnings.warn('Accumulator and defaults are being overwritten')

    def is_leaf(node):
        return isinstance(node, list) and all(isinstance(item, int) for item in node)

    context = f"An issue occurred when defining an accumulator named '{name}' directly by shape"
    leaves, tree_def = jax.tree_util.tree_flatten_with_path(shapes, is_leaf)

    def fill_leaf(path, leaf):
        if not is_leaf(leaf):
            msg = f"A corrupt shapes pytree has been detected at {path}, of type {type(leaf)}"
            raise ValueError(utils.format_error_message(msg, context))
        return jnp.full(leaf, fill_value=fill, dtype=dtype)

    definition = jax.tree_util.tree_unflatten(tree_def, [fill_leaf(path, leaf) for path, leaf in leaves])
    return self._define(name, definition, context)
''')
variant('e', B, 'ControllerBuilder.new_builder', '''
@classmethod
def new_builder(cls, batch_shape, core_dtype=None, epsilon=1e-4, depression_constant=1.0):
    def insane(msg):
        return ValueError(utils.format_error_message(msg, "An issue occurred while creating a new builder:"))
    if not (core_dtype is None or jnp.issubdtype(core_dtype, jnp.floating)):
        raise insane("dtype of probabilities core must be floating")
    if not 0.0 < epsilon < 1.0:
        raise insane("epsilon insane: Not between 0 and 1")
    core = {field: jnp.zeros(batch_shape, core_dtype) for field in ("probabilities", "iterations", "residuals")}
    return cls(ACTStates(epsilon=epsilon, depression_constant=depression_constant,
                         accumulators={}, defaults={}, updates={}, **core))
''')
variant('e', W, 'ACTViewer.transform', '''
def transform(self, function):
    def on_trees(collection, leaf_function):
        output = {}
        for name, tree in collection.items():
            output[name] = jax.tree_util.tree_map(leaf_function, tree)
        return output

    def skip_missing(value):
        return None if value is None else function(value)

    try:
        changes = dict(iterations=function(self.iterations),
                       residuals=function(self.residuals),
                       probabilities=function(self.probabilities),
                       accumulators=on_trees(self.accumulators, function),
                       defaults=on_trees(self.defaults, function),
                       updates=on_trees(self.updates, skip_missing))
    except Exception as err:
        raise RuntimeError("An issue occurred in using the provided function") from err
    return ACTViewer(self.state.replace(**changes))
''')
variant('e', W, 'ACTViewer.mask_data', '''
def mask_data(self, mask):
    self._check_mask(mask)

    def apply_mask(tensor):
        selector = utils.setup_left_broadcast(mask, tensor)
        return jnp.where(selector, tensor, jnp.zeros_like(tensor))
    return self.transform(apply_mask)

def _check_mask(self, mask):
    batch_shape = self.probabilities.shape
    if mask.dtype != jnp.bool_:
        raise ValueError('Mask was not made up of bool dtypes.')
    elif mask.shape != batch_shape:
        raise ValueError(f'Mask of shape {mask.shape} does not match batch shape of {batch_shape}')
''')
variant('e', W, 'ACTViewer.unhalted_only', '''
def unhalted_only(self):
    return self.mask_data(jnp.logical_not(self.halted_batches))
''')
variant('e', T, 'ACTStates.replace', '''
def replace(self, epsilon=None, iterations=None, residuals=None, probabilities=None, accumulators=None, defaults=None,
            updates=None, depression_constant=None, error_mode=None):
    def pick(new, old):
        return old if new is None else new
    return ACTStates(epsilon=pick(epsilon, self.epsilon),
                     iterations=pick(iterations, self.iterations),
                     residuals=pick(residuals, self.residuals),
                     probabilities=pick(probabilities, self.probabilities),
                     defaults=pick(defaults, self.defaults),
                     accumulators=pick(accumulators, self.accumulators),
                     updates=pick(updates, self.updates),
                     depression_constant=pick(depression_constant, self.depression_constant),
                     error_mode=pick(error_mode, self.error_mode))
''')
variant('e', T, 'state_flatten', '''
def state_flatten(state):
    names, values, aux_out = [], [], []
    for item in fields(state):
        leaves, aux = jax.tree_util.tree_flatten(getattr(state, item.name))
        names.append(item.name)
        values.append(leaves)
        aux_out.append(aux)
    return zip(names, values), aux_out
''')
variant('e', T, 'state_unflatten', '''
def state_unflatten(aux_data, flat_state):
    return ACTStates(*[jax.tree_util.tree_unflatten(tree_def, value) for value, tree_def in zip(flat_state, aux_data)])
''')
variant('e', E, 'TensorEditor._validate_same_shape', '''
@staticmethod
def _validate_same_shape(original, new, info):
    matches = original.shape == new.shape
    msg = f"The original tensor had shape {original.shape}, the new one {new.shape}."
    checkify.check(matches, utils.format_error_message(msg, info))
''')
variant('e', E, 'TensorEditor._validate_probability', '''
@staticmethod
def _validate_probability(tensor, info):
    rules = [(jnp.all(tensor >= 0), "A tensor representing probabilities had elements less than zero"),
             (jnp.all(tensor <= 1.0), "A tensor representing probabilities had elements greater than one")]
    for condition, msg in rules:
        checkify.check(condition, utils.format_error_message(msg, info))
''')
variant('e', E, 'TensorEditor._validate_pytree_leaves', '''
@staticmethod
def _validate_pytree_leaves(original, new, info):
    def check(condition, msg):
        checkify.check(condition, utils.format_error_message(msg, info))
    original_leaves, original_structure = jax.tree_util.tree_flatten(original)
    new_leaves, new_structure = jax.tree_util.tree_flatten(new)
    check(len(original_leaves) == len(new_leaves), f"{len(original_leaves)} leaves were expected, not {len(new_leaves)}")
    check(original_structure == new_structure, "The new tensor collection has None where the original had a leaf")
    for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
        for attribute in ("shape", "dtype"):
            before, after = getattr(original_leaf, attribute), getattr(new_leaf, attribute)
            check(before == after, f"The {attribute} of leaf {i} was {before}, and is {after}")
''')
variant('e', E, 'TensorEditor._execute_validation', '''
def _execute_validation(self, function):
    if self.error_mode != ErrorModes.standard.value:
        return
    errors, _ = checkify.checkify(function)()
    errors.throw()
''')
variant('e', E, 'TensorEditor.set_probabilities', '''
def _validate_core(self, original, values, context, content):
    self._validate_same_shape(original, values, context)
    self._validate_same_dtype(original, values, context)
    content(values, context)

def set_probabilities(self, values):
    context = "An issue occurred while attempting to set probabilities with an Editor: "
    self._execute_validation(lambda: self._validate_core(self.probabilities, values, context, self._validate_probability))
    return TensorEditor(self.state.replace(probabilities=values), self.error_mode)
''')
variant('e', E, 'TensorEditor.set_residuals', '''
def set_residuals(self, values):
    context = "An issue occurred while attempting to set residuals with an Editor: "
    self._execute_validation(lambda: self._validate_core(self.residuals, values, context, self._validate_probability))
    return TensorEditor(self.state.replace(residuals=values), self.error_mode)
''')
variant('e', E, 'TensorEditor.set_iterations', '''
def set_iterations(self, values):
    context = "An error occurred while attempting to set the iterations tensor using an Editor"
    self._execute_validation(lambda: self._validate_core(self.iterations, values, context, self._validate_is_natural_numbers))
    return TensorEditor(self.state.replace(iterations=values), self.error_mode)
''')
variant('e', E, 'TensorEditor.set_accumulator', '''
def _validate_like_accumulator(self, name, value, context):
    if not self._validate_accumulator_exists(name, context):
        return
    original = self.accumulators[name]
    self._validate_same_pytree_structure(original, value, context)
    self._validate_pytree_leaves(original, value, context)

def _with_entry(self, field, name, value):
    collection = {**getattr(self.state, field), name: value}
    return TensorEditor(self.state.replace(**{field: collection}), self.error_mode)

def set_accumulator(self, name, value):
    context = "An error occurred while setting to an accumulator with an Editor:"
    self._execute_validation(lambda: self._validate_like_accumulator(name, value, context))
    return self._with_entry("accumulators", name, value)
''')
variant('e', E, 'TensorEditor.set_defaults', '''
def set_defaults(self, name, value):
    context = f"An error occurred while setting to a defaults  named '{name}' with an Editor:"
    self._execute_validation(lambda: self._validate_like_accumulator(name, value, context))
    return self._with_entry("defaults", name, value)
''')
variant('e', E, 'TensorEditor.set_updates', '''
def set_updates(self, name, values):
    context = f"An error occurred while setting to an update entry named '{name}' with an Editor"

    def check_for_errors():
        self._validate_accumulator_exists(name, context)
        if values is None:
            return
        original = self.defaults[name]
        for rule in (self._validate_same_pytree_structure, self._validate_pytree_leaves):
            rule(original, values, context)

    self._execute_validation(check_for_errors)
    return self._with_entry("updates", name, values)
''')
variant('e', E, 'TensorEditor.edit_controller', '''
@classmethod
def edit_controller(cls, controller, error_mode=ErrorModes.standard.value):
    return cls.edit_save(controller.state, error_mode)
''')
variant('e', E, 'TensorEditor.edit_save', '''
@classmethod
def edit_save(cls, save, error_mode=ErrorModes.standard.value):
    for mode in ErrorModes:
        if mode.value == error_mode:
            return cls(save, error_mode)
    raise ValueError(f"Error mode must have been within {[item.value for item in ErrorModes]}")
''')
variant('e', A, 'AbstractACTTemplate._is_act_not_complete', '''
@staticmethod
def _is_act_not_complete(combined_state):
    controller, _, metadata = combined_state
    may_continue = metadata.num_iterations < metadata.max_num_iterations
    return may_continue & ~controller.is_completely_halted
''')
variant('e', A, 'AbstractACTTemplate.execute_act', '''
def execute_act(self, initial_state, depression_constant=1.0, max_iterations=10, check_for_errors=True, *args, **kwargs):
    act_layer = ContractValidationWrapper(self, check_for_errors)
    controller = act_layer.make_controller(initial_state, depression_constant, *args, **kwargs)
    self.setup_lazy_parameters(controller, initial_state)
    start = (controller, initial_state, ACTMetaData(0, max_iterations))
    final = jax.lax.while_loop(cond_fun=self._is_act_not_complete,
                               body_fun=self._while_loop_adapter_factory(act_layer),
                               init_val=start)
    return final[0], final[1]
''')
variant('e', A, 'state_flatten', '''
def state_flatten(state):
    entries = asdict(state)
    flat = [jax.tree_util.tree_flatten(value) for value in entries.values()]
    return zip(entries.keys(), [leaves for leaves, _ in flat]), [tree_def for _, tree_def in flat]
''')
variant('e', A, 'ACTMetaData.increase_counter', '''
def increase_counter(self):
    return ACTMetaData(num_iterations=1 + self.num_iterations, max_num_iterations=self.max_num_iterations)
''')
variant('e', L, 'ContractValidationWrapper._validate_all_act_updates_committed', '''
@staticmethod
def _validate_all_act_updates_committed(controller, context):
    if controller.updates_ready_to_commit:
        msg = "All accumulators were filled, but you never committed the updates."
    elif controller.has_cached_updates:
        msg = "Controller had uncommitted updates and is not ready to commit."
    else:
        return
    raise RuntimeError(utils.format_error_message(msg, context))
''')
variant('e', L, 'ContractValidationWrapper.make_controller', '''
def make_controller(self, initial_state, *args, **kwargs):
    controller = self.layer.make_controller(initial_state, *args, **kwargs)
    self._execute_validation(lambda: self._validate_made(controller))
    return controller

def _validate_made(self, controller):
    context = "An issue occurred while trying to make an act controller using the user layer"
    for rule in (self._validate_is_controller, self._validate_controller_not_empty):
        rule(controller, context)
''')
variant('e', L, 'ContractValidationWrapper.run_iteration', '''
def run_iteration(self, controller, state):
    context = "An issue occurred while validating the execution of run_iteration"
    update = self.layer.run_iteration(controller, state)

    def validate():
        self._validate_is_tuple(update, context)
        self._validate_length_two(update, context)
        self._validate_new_controller(controller, update[0], context)
    self._execute_validation(validate)
    return update

def _validate_new_controller(self, controller, new_controller, context):
    self._validate_is_controller(new_controller, context)
    self._validate_is_novel_controller(controller, new_controller, context)
    self._validate_all_act_updates_committed(new_controller, context)
''')


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    args = sys.argv[1:]
    only = [a for a in args if ':' in a]
    for name in [a for a in args if ':' not in a] or ([] if only else list(VARIANTS)):
        run(here, name, VARIANTS[name])
    for o in only:
        name, q = o.split(':')
        run(here, o, [e for e in VARIANTS[name] if e[1] is None or e[1].endswith(q)])


def run(here, name, edits):
    d = tempfile.mkdtemp(prefix='refactor.')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        apply(d + '/repo', edits)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', 'tests'], cwd=d + '/repo', capture_output=True, text=True, env=dict(os.environ, JAX_PLATFORMS='cpu')) if os.environ.get('TESTS') else None
        print('=====', name, t.stdout.strip().splitlines()[-1] if t else '', flush=True)
        r = subprocess.run([sys.executable, here + '/tools/summary.py'], env=dict(os.environ, VERIF_REPO=d + '/repo'), capture_output=True, text=True)
        print(r.stdout + r.stderr[-1500:], flush=True)
        if os.environ.get('FULL'):
            ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
            for p in (os.environ['FULL'].split(',') if ',' in os.environ['FULL'] else [i for i in ids]):
                r = subprocess.run([sys.executable, here + '/check.py', p, '--repo', d + '/repo', '--evidence', d + '/ev'], env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), capture_output=True, text=True)
                if r.returncode or 'VIOLATION' in r.stdout:
                    print('ALARM', p, r.returncode, r.stdout[-600:], r.stderr[-300:], flush=True)
            print('full done', flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
