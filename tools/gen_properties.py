"""One-off writer of /verif/properties.jsonl (kept so that the file can be regenerated)."""
import json
CT='src/jax_act/core/controller.py'; ST='src/jax_act/core/states.py'; VW='src/jax_act/core/viewer.py'
BD='src/jax_act/core/builder.py'; ED='src/jax_act/core/tensoreditor.py'; UT='src/jax_act/core/utils.py'
LA='src/jax_act/layers/act.py'; LC='src/jax_act/layers/core.py'; FX='src/jax_act/frameworks/flax.py'; IM='src/jax_act/core/immutable.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None,
                   **({'state':state} if state else {}))))
p('C01','Cumulative halting probability stays in [0,1] and never decreases',
  'Iterating a controller whose cumulative probabilities all lie in [0,1] yields cumulative probabilities that all lie in [0,1], whatever the halting probabilities (any numbers, nan excluded; values outside [0,1] are clamped, not rejected) and whatever the non-negative depression constant. No entry ever decreases in an iteration.',
  ['inputs','histories'],'every wellformed controller state, every halting-probability tensor of the batch shape (any values), every non-negative depression constant, any number of iterations',
  'Tests iterate a handful of fixed small tensors with depression 1; the bound must hold at every value, in particular at values that overshoot, and after every history.',
  [CT],[('clip of halting probabilities',CT+' iterate_act'),('trim of the overshooting share to the remainder',CT+' _process_probabilities')],['controller.probabilities after iterate_act'])
p('C02','Halting rule: threshold, remainder and residual',
  'In an iteration, an entry halts exactly when its cumulative probability plus the depression constant times the clamped halting probability exceeds one minus epsilon. A halting entry ends at cumulative probability one and, the first time, records as residual the probability that was still missing; every other entry adds exactly depression times clamped halting probability and keeps its residual.',
  ['inputs','histories'],'every wellformed state, every epsilon and depression constant, every halting-probability tensor of the batch shape, every batch entry independently',
  'The tests compare two or three hand-made entries; a wrong comparison, a mis-ordered depression or a cross-entry leak needs values near the threshold, depression different from one, or mixed batches.',
  [CT],[('threshold and clamp',CT+' _process_probabilities'),('halt threshold',CT+' halt_threshold / halted_batches')],['controller.probabilities','controller.residuals','controller.halted_batches'])
p('C03','Accumulators gain the probability-weighted update at every leaf',
  'In an iteration every leaf of every accumulator gains its cached update multiplied by the share of probability its batch entry consumed in that iteration. The share is aligned with the leading (batch) dimensions of the leaf whatever the number of further dimensions, and tree structure, shapes and dtypes of accumulators are kept.',
  ['inputs','configurations','histories'],'every set of accumulators, every pytree structure, every leaf rank and shape, every state and halting probability',
  'Tests use one or two accumulators with one fixed shape; misalignment or a skipped leaf only shows with other ranks, square shapes, or more than one leaf.',
  [CT,UT],[('per-leaf update',CT+' _update_accumulator'),('leaf pairing',UT+' merge_pytrees'),('left alignment',UT+' setup_left_broadcast')],['controller.accumulators after iterate_act'])
p('C04','Entries that have halted are frozen',
  'Once a batch entry has halted, further iterations change neither its accumulated values nor its residual nor its iteration count, and it stays halted, whatever updates and halting probabilities (any numbers, nan excluded for the latter) are supplied for it.',
  ['inputs','histories'],'every state with any subset of halted entries, any further history of iterations, arbitrary (even huge or infinite) updates for the halted entries',
  'A test shows one extra iteration of one entry; the guarantee is about every later iteration with arbitrary supplied values.',
  [CT],[('selection on halted entries',CT+' _update_accumulator, iterate_act'),('newly halting filter',CT+' _process_probabilities')],['accumulators, residuals, iterations, halted_batches across iterations'])
p('C05','The iteration counter counts exactly the steps before halting',
  'An iteration adds exactly one to the iteration count of every batch entry that was not halted when it began, including the one in which the entry halts, and zero to the others.',
  ['inputs','histories'],'every state, every mixed halted/unhalted batch, any number of iterations',
  'Sampled tests never vary which entries are halted together with the step at which they halt.',
  [CT],[('selected increment',CT+' iterate_act')],['controller.iterations'])
p('C06','The weights of the gathered updates sum to the cumulative probability',
  'Along every history of iterations from a freshly built controller, the weights with which updates were gathered into an entry sum to its cumulative probability, so to exactly one once it has halted; gathering the constant update u from a zero default therefore yields u times the cumulative probability. Resetting a halted entry restarts that account from zero.',
  ['histories','inputs'],'all histories of iterate and reset from a fresh controller, all halting probabilities, depression constants and epsilons',
  'It is an invariant over unbounded histories; tests run at most a few steps.',
  [CT],[('same trimmed share used for probability and accumulators',CT+' iterate_act'),('reset',CT+' reset_batches')],['controller.accumulators against controller.probabilities'])
p('C07','Caching, committing and resetting follow the update protocol',
  'Caching an update for an unknown accumulator, or for one whose update is already pending, is refused; otherwise exactly that update becomes pending and nothing else changes. An iteration is refused unless every accumulator has a pending update of matching leaf count and leaf shapes and the halting probabilities have the batch shape, and it leaves nothing pending; a reset is refused while anything is pending.',
  ['inputs','histories','configurations'],'every set of accumulators and names, every subset of pending updates, every sequence of calls',
  'Tests cover single wrong calls on one or two accumulators; a protocol slip on the second of several accumulators or after a particular sequence goes unseen.',
  [CT],[('pending checks',CT+' cache_update, iterate_act, reset_batches'),('leaf shape check',CT+' _update_accumulator')],['exceptions raised and state.updates of the returned controller'])
p('C08','Reset restores halted entries only',
  'Resetting sets, for every batch entry that is halted, the cumulative probability, residual and iteration count to zero and every leaf of every accumulator to its default, at all positions of that entry. Entries that are not halted, the defaults, epsilon and the depression constant stay as they were.',
  ['inputs','histories','configurations'],'every state without pending updates, every halted subset, every accumulator tree, every leaf rank',
  'Tests check one tensor accumulator with one shape and mostly zero defaults.',
  [CT,UT],[('selectors',CT+' reset_batches'),('leaf pairing',UT+' merge_pytrees')],['controller returned by reset_batches'])
p('C09','Masked views zero exactly the masked batch entries',
  'Masking a view yields zero at every position, of every tensor in it, that belongs to a batch entry whose mask is false, even where the tensor held inf or nan, and the unchanged value elsewhere; a mask that is not boolean or not of the batch shape is refused. The halted-only and unhalted-only views are the masks by halted entries and by its complement.',
  ['inputs','configurations'],'every state, mask, accumulator tree, leaf rank, pending or absent update',
  'Tests use few masks and finite values of one shape.',
  [VW,UT],[('mask application',VW+' mask_data'),('selectors',VW+' halted_only / unhalted_only')],['tensors of the returned viewer'])
p('C10','A view transform reaches every tensor once',
  'Transforming a view applies the given function exactly to the iterations, residuals, probabilities and to every leaf of the accumulators, defaults and pending updates, each result landing in the place of its own source. Absent updates stay absent, epsilon, depression constant and error mode are kept, the original view is untouched and a failure of the function is reported as a RuntimeError.',
  ['inputs','configurations'],'every state and every function on tensors, including ones that change shape or that fail on some tensor',
  'A test with one function and accumulators equal to their defaults cannot tell sources apart.',
  [VW],[('field-wise mapping',VW+' transform')],['state of the returned viewer'])
p('C11','Controllers, viewers, builders and editors are immutable',
  'No operation of a controller, viewer, builder or editor changes the object it is called on, its saved state, or the containers inside that state; each change comes back as a new object. Assigning to an attribute of such an object raises AttributeError (the private flag that makes it immutable aside).',
  ['inputs','histories'],'every public operation, in every state, whether it succeeds or raises',
  'Aliasing damage shows only when an old object is inspected after a later operation, which tests rarely do.',
  [IM,CT,VW,BD,ED,ST],[('attribute guard',IM),('copy before write',CT+', '+BD+', '+ED)],['receiver and its state before and after each call'])
p('C12','Definitions stay consistent and independent of each other',
  'Defining an accumulator registers the value as both its default and its current content with no update pending, replacing an earlier definition of the same name; deleting removes exactly that name everywhere and an unknown name is refused. All other accumulators and all probabilities, residuals, iterations, epsilon and depression stay as they were, so defaults, accumulators and updates always have the same names.',
  ['histories','inputs','configurations'],'every sequence of definitions and deletions over arbitrary names',
  'Tests define one or two accumulators; consistency must survive any history.',
  [BD],[('define',BD+' _define'),('delete',BD+' _delete_definition')],['state of the returned builder and built controller'])
p('C13','The builder refuses unusable configurations and starts from zero',
  'A definition is accepted exactly when every leaf has a floating dtype and a shape that starts with the batch shape, and a new builder exactly when epsilon lies strictly between zero and one and the requested dtype is floating. A new builder starts with zero probabilities, residuals and iterations of the batch shape and requested dtype, no accumulators, and the given epsilon and depression constant.',
  ['inputs','configurations'],'every batch shape, dtype, epsilon (nan included), depression constant and definition tree',
  'A leaf that is wrong only in a later position, or a wrong second batch dimension, is not among the sampled cases.',
  [BD],[('definition validation',BD+' _validate_definition_pytree'),('parameter validation',BD+' new_builder')],['exceptions; state of the new builder'])
p('C14','Definition by shape creates the described leaves',
  'Defining an accumulator by shape creates, for each list of integers in the given tree and in the same place, a tensor of exactly that shape, of the requested dtype and filled with the requested value. A tree with any other kind of leaf is refused with ValueError.',
  ['inputs','configurations'],'every tree of shapes, dtype and fill value',
  'Tests use one shape and default fill.',
  [BD],[('leaf construction',BD+' define_accumulator_by_shape')],['defaults and accumulators of the returned builder'])
p('C15','Flattening and rebuilding loses nothing',
  'Flattening a state, controller, viewer, builder, editor or loop-metadata object as a jax pytree and rebuilding it from the unchanged leaves yields an object of the same class with equal fields, and mapping a function over it changes each leaf in its own place only.',
  ['inputs','configurations'],'every state, every accumulator tree (dataclass nodes included), absent and pending updates',
  'Tests flatten fixed simple states; swapped fields of equal shape are invisible there.',
  [ST,CT,VW,BD,ED,LA],[('state flattening',ST+' state_flatten / state_unflatten'),('object flattening',CT+' flatten_controller and its siblings')],['jax.tree_util.tree_flatten / tree_unflatten / tree_map on the objects'])
p('C16','Deriving a state replaces exactly the named fields',
  'Deriving a new state with some fields given yields those values in those fields and the unchanged values, by identity, in all the others; the original state is unchanged.',
  ['inputs','configurations'],'every subset of the fields, including falsy values such as zero or empty dictionaries',
  'Tests replace one or two fields.',
  [ST],[('replace',ST+' ACTStates.replace')],['fields of the returned state'])
p('C17','The editor refuses invalid values in standard mode',
  'In standard mode the editor accepts probabilities and residuals exactly when shape and dtype are those of the original and all entries lie in [0,1], iterations when they match and are not negative, epsilon when it lies in [0,1], and an accumulator, default or update exactly when the name is defined and tree structure, leaf count, leaf shapes and leaf dtypes match (an update may also be absent). In silence mode nothing is refused.',
  ['inputs','configurations'],'every value, shape, dtype and tree, nan included, every name',
  'A single bad entry deep in a tensor or one bad leaf out of many must be found; tests use uniform bad inputs.',
  [ED],[('validators',ED+' _validate_*'),('mode switch',ED+' _execute_validation')],['exceptions of the setters'])
p('C18','The editor changes exactly what was set',
  'An accepted edit changes the addressed field, or the addressed entry of it, to exactly the given value and nothing else, and keeps the error mode for the edits that follow; editing a controller or a save starts from exactly that state, and building or saving returns exactly the edited state. An unknown error mode is refused.',
  ['inputs','histories','configurations'],'every sequence of edits, every field and name, both error modes',
  'Tests look at the field just set, not at the other ones nor at longer edit histories.',
  [ED,ST],[('setters',ED+' set_*'),('entry points',ED+' edit_controller / edit_save / build / save')],['state and error mode of the returned editor'])
p('C19','Tree broadcasting copies each leaf to its descendants or refuses',
  'Broadcasting a source tree to a target tree yields a tree with exactly the structure of the target in which each leaf is the source leaf found at or above its position. It raises RuntimeError exactly when the source is not a prefix of the target (different container kind, length, keys or static data, or a branch where the target has a leaf).',
  ['inputs','configurations'],'every pair of finite trees of lists, tuples, dicts of any kind, namedtuples, registered containers with static data, empty containers and absent nodes, of any depth',
  'Recursion with a consumed queue goes wrong only for particular nestings, for instance empty containers before others.',
  [UT],[('recursive replication',UT+' _replicate_leaves'),('counting',UT+' _count_linked_leaves'),('node comparison',UT+' _validate_children_descent')],['return value or exception of broadcast_pytree_shape'])
p('C20','Binary tree operators pair the right leaves in the right order',
  'Applying a binary operator to two trees yields the structure of the larger one, with each leaf the operator applied to first-operand leaf and second-operand leaf in that order, the lower-rank one left-aligned by trailing unit dimensions; either operand may be the one that is broadcast. Incompatible trees and a failing operator are reported as RuntimeError.',
  ['inputs','configurations'],'every pair of trees and leaf ranks, every operator, also non-commutative ones',
  'Tests use a few trees; swapped operands or alignment mistakes need non-commutative operators with broadcasting from the second operand.',
  [UT],[('operator application',UT+' execute_binary_operator')],['return value or exception of execute_binary_operator'])
p('C21','Broadcast helpers are exact',
  'Left-broadcast setup appends exactly as many unit dimensions as the target has more than the tensor and keeps the content, leaves scalars alone and refuses a tensor of higher rank than the target. The right-broadcast test answers true exactly for pairs of shapes that numpy can broadcast together.',
  ['inputs'],'all pairs of shapes of any rank, including scalars',
  'A loop over dimensions must be right for every rank; tests use ranks up to four.',
  [UT],[('loop adding dimensions',UT+' setup_left_broadcast'),('dimension comparison',UT+' can_right_broadcast')],['return values'])
p('C22','The act loop runs the layer until all halted or the maximum is reached',
  'Executing act on a layer starts from the controller the layer makes from the initial state and depression constant, applies one layer iteration at a time as long as some entry is unhalted and fewer than the maximum number of iterations were made, and returns the controller and state after exactly the last such iteration. Extra arguments go to the controller construction, and a layer that needs no iterations returns its initial state.',
  ['inputs','histories','programs'],'every layer, initial state, depression constant and iteration limit',
  'The number of iterations is data dependent; the tests run one layer.',
  [LA],[('loop condition',LA+' _is_act_not_complete'),('loop body',LA+' _while_loop_adapter_factory'),('driver',LA+' execute_act')],['result of execute_act, number of layer calls'])
p('C23','Contract breaches of a layer are reported when checking is on',
  'With checking on, a layer is refused with TypeError or RuntimeError when it makes something that is not a controller or has no accumulators, or when an iteration returns something other than a pair, a first item that is not a controller, the very same controller, or a controller with uncommitted updates; a correct layer is never refused. With checking off nothing is refused and the layer\'s results are passed on as they are.',
  ['inputs','programs','configurations'],'every layer result, every subset of pending updates, both settings',
  'Tests mostly call the single validators directly, not the wrapper that has to apply all of them to the right object.',
  [LC],[('wrapper',LC+' ContractValidationWrapper')],['exceptions or results of make_controller and run_iteration of the wrapper'])
p('C24','Tree merge and tree comparison are exact',
  'Merging two trees with equally many leaves yields the structure of the first with the function applied once to each pair of corresponding leaves, first tree first; trees with different numbers of leaves are refused. Two trees compare equal exactly when structure, leaf types, leaf shapes and (nearly or exactly, as asked) leaf contents agree, and structure comparison ignores the leaves, an absent one (None) counting like any other leaf.',
  ['inputs','configurations'],'every pair of trees of any size',
  'Tests sample few pairs and never trees which differ only in container kind or in one late leaf.',
  [UT],[('merge',UT+' merge_pytrees'),('comparison',UT+' are_pytrees_equal / are_pytree_structure_equal')],['return values'])
p('C25','Status queries agree with the state',
  'A batch entry is reported halted exactly when its cumulative probability exceeds one minus epsilon, by the controller and by its viewer alike; completely halted and any halted are the conjunction and disjunction over all entries. Ready-to-commit and has-pending hold exactly when all, respectively some, accumulators have a pending update, and every direct query returns the corresponding field of the state.',
  ['inputs','configurations'],'every state: all probabilities, epsilons, batch shapes and subsets of pending updates',
  'Mixed subsets and mixed batches are not covered by the samples.',
  [CT,VW],[('inferred properties',CT+' properties'),('viewer properties',VW+' properties')],['properties of controller and viewer'])
p('C26','Flax layers set up parameters exactly when they may',
  'Before the act loop a flax act layer runs one iteration on the initial controller and state exactly when the parameter collection is mutable, and discards its result. A flax act layer that does not implement setup is refused with NotImplementedError.',
  ['programs','configurations'],'every layer, controller, state, mutable and immutable parameters',
  'The tests run one network in each mode and do not look at how often the iteration ran.',
  [FX,LA],[('lazy setup',FX+' setup_lazy_parameters'),('setup guard',FX+' setup')],['calls of run_iteration; exceptions'])
p('C27','Compiled and eager execution agree',
  'Caching, iterating and resetting a controller, masking and transforming a view, querying the status, defining accumulators and editing a state in silence mode give the same result (up to floating-point rounding) under jax.jit as eagerly.',
  ['programs','inputs','configurations'],'every operation, every input, on every backend',
  'Tests compile a few functions.',
  [CT,VW,BD,ED],[('pytree registration and trace-safe operators',CT)],['results with and without jit'])
p('C28','Gradients flow through the act process',
  'Differentiating through gathered accumulators and residuals gives the gradients of the probability-weighted sum, with the halting decision itself held constant: by the updates, '
  'by the halting probabilities (strictly between zero and one, where clipping has a derivative), by the accumulators, probabilities and residuals a step starts from, by the defaults a reset brings '
  'back and by the depression constant; flattening, editing, defining and viewing pass derivatives on with the values.',
  ['inputs','programs'],'every layer and loss, in every mode of differentiation jax has for the program (reverse mode does not cross a while loop)',
  'No test differentiates.',
  [CT,LA],[('select based masking',CT+' _process_probabilities, _update_accumulator'),('the loop',LA+' execute_act')],['jax.grad and jax.jvp of a loss over the result'])
p('C29','Checked compiled functions raise what their checks find',
  'The wrapper jit_and_checkify makes of a function a compiled function of the same arguments, positional or named, that returns exactly the result of the function in every call in which all its checks hold, and in every other call raises the error of a failed check, whatever earlier calls did. '
  'So a standard-mode editor used inside refuses the probabilities, residuals, iterations and epsilons it refuses in eager code, and accepts all others.',
  ['inputs','programs','histories'],'every function, every arguments, every sequence of calls of one wrapper, every setter of a standard-mode editor inside',
  'No test calls the wrapper more than once on values for which its checks differ, and none uses an editor inside of it.',
  [UT,ED],[('wrapper',UT+' jit_and_checkify'),('recorded checks',ED+' _execute_validation')],['results and exceptions of the wrapped function'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
