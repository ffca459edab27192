#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
PROPS = []


def P(pid, title, statement, over, text, why, files, state, mech, observe, technique, level='exploration', note=''):
  assert len(title) <= 80, title
  PROPS.append(dict(
      prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=s, meaning='observed by the monitor') for s in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None)),
      check=dict(property=pid, quick_cmd=f'{PY} run.py {pid} --tier quick',
                 thorough_cmd=f'{PY} run.py {pid} --tier thorough',
                 evidence_file=f'/verif/evidence/{pid}.json', technique=technique, level=level, level_note=note)))


CK = 'vmoe/checkpoints/'
P('P01', 'Sharded checkpoints restore exactly what was saved',
  'For every tree of device arrays, restoring a sharded checkpoint gives back bit-identical values, dtypes and shapes in the '
  'same structure (or the equivalent nested dictionary without a target). This holds for any placement of the arrays when saving, '
  'any number of checkpoint shards, any chunk size, any read concurrency, and any (different) placement requested when restoring, '
  'and the restored arrays have the requested placement.',
  ['inputs', 'configurations'],
  'all trees, dtypes, shapes (scalars and zero-size included), shardings before and after, shard counts, chunk sizes, process counts',
  'Tests sample a few trees on few placements; slice intersection and splitting errors only show for particular combinations of '
  'shape, source sharding, chunking and target sharding.',
  [CK + 'partitioned.py', CK + 'serialization.py', CK + 'types.py'], ['index file', 'data shard files'],
  [('chunking and shard assignment', CK + 'partitioned.py:save_checkpoint'),
   ('slice intersection on restore', CK + 'partitioned.py:restore_checkpoint')],
  ['arrays returned by restoring, per device'],
  'differential runtime oracle: bit-exact comparison of every restored device shard with the saved NumPy value, on 1-8 devices '
  'and on 2-3 real cooperating processes')
P('P02', 'A crash or I/O error while saving never tears or loses a checkpoint',
  'At every instant while saving, each destination file is either absent/its previous complete version or its new complete version, '
  'so a crash, a kill or an I/O error never leaves a torn file under a final name nor loses the previous one. I/O errors are reported '
  'to the caller, saving without overwriting fails and keeps the existing file, and after any crash of a sharded save the latest '
  'complete checkpoint that is discovered can be restored.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'every program point of the saving code, every write and rename failing, random SIGKILL instants, all saving entry points',
  'Tests only observe the state after a successful save; intermediate on-disk states and failing I/O are never seen.',
  [CK + 'base.py', CK + 'partitioned.py'], ['files on disk', 'temporary files'],
  [('write to temporary file then rename', CK + 'base.py:save_checkpoint'),
   ('completeness of a step', CK + 'base.py:iterate_complete_steps_for_prefix')],
  ['directory contents at every executed line, mid-write, around rename, after SIGKILL', 'exceptions raised by results'],
  'crash-image monitor (sys.monitoring line events + interposed file I/O), exhaustive I/O fault injection per run, SIGKILL of real '
  'processes', 'fault_enumeration',
  'crash points are enumerated at line/write/rename granularity of each generated run')
P('P03', 'Discovery returns only complete checkpoints, in step order',
  'For any directory contents, the steps reported for a prefix are exactly those with every required suffix, no missing shard and no '
  'temporary file, in increasing (or decreasing) numeric order; the latest one is the largest of them, or none. Files of other '
  'prefixes never matter, shard suffixes are added and removed losslessly, and removal deletes exactly the selected files.',
  ['inputs', 'histories'],
  'all directory contents a history of complete, partial and crashed saves can leave, all required-suffix sets',
  'Tests mock a few directory listings; wrong ordering, stale temporaries or foreign prefixes need particular listings.',
  [CK + 'base.py'], ['files on disk'],
  [('discovery', CK + 'base.py:iterate_complete_steps_for_prefix'), ('removal', CK + 'base.py:remove_checkpoints')],
  ['returned steps and paths', 'files left on disk'],
  'model-based runtime oracle: discovery and removal on random real directories against an independent model')
P('P04', 'Encoding a tree to bytes and decoding it is the identity',
  'Encoding any tree of arrays, scalars, primitives, slices, slice arrays, shape and index records to bytes and decoding it gives back '
  'an equal tree with the same types, dtypes, shapes and bits, also when arrays are split because of their size. Lazily chunked arrays '
  'decode to exactly the addressed pieces with their global positions, and encoding does not modify its input.',
  ['inputs'], 'all trees of supported leaves, all dtypes, memory layouts, splitting thresholds',
  'Tests cover one value per type; order, optional fields, splitting and layout bugs need particular values.',
  [CK + 'serialization.py', CK + 'types.py'], ['encoded bytes'],
  [('extension types', CK + 'serialization.py:msgpack_serialize'), ('lazy chunks', CK + 'types.py:LazyArrayChunks')],
  ['decoded values'], 'round-trip runtime oracle on randomly generated trees with a structural bit-exact comparison')
P('P05', 'A multi-process save stores every element exactly once, by its owner',
  'In a job of any number of processes, every element of every array is stored in exactly one chunk of exactly one data file, the index '
  'lists exactly the stored chunks and where they are, each shard file is written by one fixed process and the index by the first one. '
  'Chunks respect the requested size limit and, when every process holds all the data, the shards are balanced up to one chunk.',
  ['inputs', 'configurations'],
  'all trees, placements over processes, process counts, shard counts (also below the process count) and chunk limits',
  'Tests mock the process index; overlaps, gaps and double writers appear only for particular multi-process placements.',
  [CK + 'partitioned.py'], ['index file', 'data shard files', 'per-process write logs'],
  [('assignment of chunks to shards', CK + 'partitioned.py:save_checkpoint')],
  ['files written by each rank', 'decoded chunks'],
  'conservation/exactly-once checker over the files and write logs of real multi-process runs')
P('P06', 'Asynchronous saves store the values at the time of the call',
  'Whatever happens to the saved arrays after an asynchronous save returns (deletion, donation, new values) and however many saves are '
  'queued, each checkpoint holds the version that was passed to the call that wrote it. The result reports exactly the files of that '
  'call, and an error in any of its files is raised to whoever waits for it.',
  ['schedules', 'histories'],
  'all schedules of pool workers relative to deletions, donations and later saves; all pool sizes',
  'Tests wait for the result right away; the window between the call and the write is never exercised.',
  [CK + 'partitioned.py', CK + 'base.py'], ['pending writes', 'host copies of arrays'],
  [('copy to host before queueing', CK + 'partitioned.py:save_checkpoint'),
   ('asynchronous writes', CK + 'base.py:save_multiple_checkpoints_async')],
  ['restored version ids', 'results of the asynchronous calls'],
  'schedule-controlled workload (gated thread pools) with unique version ids and an offline check of which version each file holds')

M = 'vmoe/moe.py'
R = 'vmoe/nn/routing.py'
P('P07', 'Experts-per-item routing respects capacity, choice priority and gates',
  'For any gates, routing each item to its K best experts keeps at most `capacity` items per expert and group. Assignments are served '
  'in order of choice (all first choices before any second choice) and then by item position, or by largest gate when batch priority is '
  'on; exactly the first `capacity` requests of each expert are served, every served item has its own buffer position and is combined '
  'with its own gate value, and dropped assignments contribute nothing. The capacity follows the documented law of factor, rounding '
  'mode and multiple, for both dispatcher types.',
  ['inputs', 'configurations'], 'all gates, group sizes, expert counts, K, capacities, roundings, multiples, dispatchers and priorities',
  'Tests check a few small hand-made gate matrices; priority and overflow errors need contention patterns.',
  [M], ['dispatch and combine operators'],
  [('capacity', M + ':compute_capacity'), ('assignment', M + ':get_top_experts_per_item_dispatcher')],
  ['operators recovered by dispatching/combining identity matrices'],
  'operator-recovery monitor compared with an independent greedy model')
P('P08', 'All dispatchers compute the same dispatch and combine, on any mesh',
  'For any assignment, dispatching gives each expert exactly its items at their buffer positions (zeros elsewhere), and combining gives '
  'each item the weighted sum over its assignments of the expert outputs. The scatter/gather and einsum implementations agree in values '
  'and gradients, the bfloat16 wrapper returns the original dtype, and adding sharding constraints on any device mesh changes nothing.',
  ['inputs', 'configurations'], 'all assignments, shapes, dtypes, group counts (multiples of the experts or not) and device meshes',
  'Tests use a few fixed sizes on one device; reshape/transposition and sharding errors show for particular size relations.',
  [M], ['expert buffers'], [('dispatchers', M + ':BaseDispatcher.dispatch'), ('combine', M + ':BaseDispatcher.combine')],
  ['dispatched and combined arrays', 'gradients'], 'differential runtime oracle against NumPy loops and across 8-device meshes')
P('P09', 'Items-per-expert routing fills every expert with exactly its best items',
  'For any gates, each expert processes in each group exactly `capacity` distinct items: the ones with the largest gates for that '
  'expert, each combined with its own gate value. The reported metrics (items without experts, and counts of experts per item) equal '
  'those recomputed from the actual assignment.',
  ['inputs', 'configurations'], 'all gates, group sizes, expert counts and capacities up to the group size',
  'Tests check one example; selection and metric errors depend on the contention pattern.',
  [M, R], ['dispatch and combine operators', 'metrics'],
  [('assignment', M + ':get_top_items_per_expert_dispatcher'), ('router', R + ':NoisyTopItemsPerExpertRouter')],
  ['operators recovered by identity inputs', 'metrics returned'], 'operator-recovery monitor compared with a sort-based model')
P('P11', 'The mixture layer equals running each expert on its own items',
  'For any expert module and routing, the layer gives the same outputs as applying each expert separately, with its own slice of the '
  'parameters, to the items dispatched to it and combining them. Experts are initialised differently and draw different random numbers, '
  'auxiliary outputs and several inputs or outputs are supported, and running distributed over a device mesh changes neither outputs '
  'nor gradients.',
  ['inputs', 'configurations'], 'all expert modules, variable axes, numbers of experts and groups, dispatchers, meshes',
  'Tests check shapes and one module; leaks between experts or mesh dependent results need other combinations.',
  [M], ['expert parameters', 'expert inputs and outputs'],
  [('lifting', M + ':sparse_moe_spmd'), ('group size and mesh constraints', M + ':with_sharding_constraint')],
  ['layer outputs', 'gradients', 'initialised parameters'], 'differential runtime oracle: loop over experts with sliced variables')
P('P12', 'Router gates, noise and auxiliary losses follow their definitions',
  'For any input and kernel, deterministic routing uses the softmax of the linear logits; non-deterministic routing uses the softmax of '
  'the logits plus normal noise of standard deviation noise_std/num_experts drawn independently per item and expert. The importance, '
  'load and GShard losses of each group equal their definitions, the auxiliary loss is their weighted sum, its gradient is that of '
  'this definition and finite even if the experts are perfectly balanced, and losses with zero weight never contribute.',
  ['inputs', 'configurations'], 'all inputs, kernels, expert counts, K, noise levels, loss weights, seeds',
  'Tests check that outputs have the right shape or mock the parts; wrong scale, axis or reuse of noise gives plausible outputs.',
  [R], ['gates', 'noise', 'losses'],
  [('gates and noise', R + ':NoisyTopExpertsPerItemRouter.__call__'), ('losses', R + ':_importance_auxiliary_loss')],
  ['gates recovered through the combine operator', 'noise at the random library boundary', 'returned metrics'],
  'operator-recovery monitor plus recorded random draws, compared with NumPy definitions')

ER = 'vmoe/nn/ensemble_routing.py'
P('P13', 'Ensemble routing isolates the members of the ensemble',
  'For any ensemble size M dividing the experts and the group size, items of member m are only ever sent to the m-th block of experts, '
  'with the gates, noise scale, losses and capacity behaviour they would have in a router of their own (own parameters, independent '
  'noise). Therefore parameters of one member never influence the predictions of another, the reshaping of tokens to groups and back '
  'is lossless and keeps members apart, and incompatible sizes are rejected.',
  ['inputs', 'configurations'], 'all inputs, group counts and sizes, expert counts, ensemble sizes, K, capacities, noise levels, models',
  'Tests check shapes and a few gate values; mixed-up members still produce plausible outputs.',
  [ER, 'vmoe/nn/vit_moe_ensemble.py'], ['gates of each member', 'predictions of each member'],
  [('block diagonal gates', ER + ':NoisyTopExpertsPerItemEnsembleRouter'), ('token reshaping', ER + ':reshape_to_group_size_representation'),
   ('encoder', 'vmoe/nn/vit_moe_ensemble.py:EncoderMoeEnsemble')],
  ['operators recovered by identity inputs', 'model outputs under perturbed parameters'],
  'non-interference monitor: operator recovery per member against a router run alone, and perturbation of one member of the full model')
SR = 'vmoe/projects/soft_moe/router.py'
P('P14', 'Soft routing mixes all items convexly, within each group',
  'For any input, every expert slot receives a convex combination of the items of its group, and every item a convex combination of all '
  'slot outputs: softmax over items, resp. over slots, of the same scaled cosine similarities (plus the same noise when not '
  'deterministic). Groups never mix, only the direction of items and slot parameters matters, the number of slots follows the '
  'requested number or capacity law, and the reported weight and similarity statistics equal those of the actual weights.',
  ['inputs', 'configurations'], 'all inputs, parameters, group sizes, experts, slots, capacity factors, noise levels, seeds',
  'Tests check shapes and one case; a softmax over the wrong axes or separate noise looks plausible.',
  [SR], ['dispatch and combine weights', 'metrics'], [('weights', SR + ':SoftRouter.__call__'), ('metrics', SR + ':SoftRouter.get_metrics')],
  ['operators recovered by identity inputs', 'returned metrics'], 'operator-recovery monitor compared with NumPy definitions')
OT = 'vmoe/projects/sparsity_constrained_ot/'
P('P15', 'Transport routers route by a valid transport plan of their own logits',
  'For any input, the plan used by the optimal transport routers is non-negative, satisfies its marginals (unit mass per item, equal '
  'mass per expert, up to the tolerance of the solver), has at most K experts per item or at most capacity items per expert for the '
  'sparse ones, and is the optimal one for the logits. Dispatching follows this plan, outputs are combined with the plan or with the '
  'softmax of the very same (noisy) logits, and losses and statistics describe what was routed.',
  ['inputs', 'configurations'], 'all inputs, kernels, group sizes, expert counts, K, capacities, noise, solvers',
  'Tests check shapes and selected metrics; a wrong marginal, axis or logits gives another plausible plan.',
  [OT + 'kl_projection_routing.py', OT + 'ksparse_projection_routing.py', OT + 'sparse_projection_routing.py', OT + 'ot_routing.py'],
  ['transport plan', 'combine weights'],
  [('Sinkhorn plan', OT + 'kl_projection_routing.py:_get_kl_projection_algorithm'),
   ('k-sparse plan', OT + 'ksparse_projection_routing.py:_get_sparsity_constrained_ot_algorithm'),
   ('combine weights', OT + 'ot_routing.py:_replace_combine_weights')],
  ['plan and weights recovered by identity inputs', 'metrics'],
  'operator-recovery monitor: marginals, sparsity and optimality conditions checked on every observed plan')
VM = 'vmoe/nn/vit_moe.py'
P('P16', 'The sparse vision transformer computes its documented function',
  'For any configuration (patch size, layers, which of them are sparse, class token, classifier type, position embeddings, query/key '
  'normalization, representation layer, head) and any parameters and images, the model output equals the reference computation in which '
  'sparse layers only replace the MLP, dropped tokens pass through the residual connection, and metrics are summed over sparse layers. '
  'Images of a batch that do not share a group never influence each other, and evaluation mode is deterministic.',
  ['inputs', 'configurations'], 'all configurations, parameters, images, batch sizes and group sizes',
  'Tests check shapes and compilation of a few configurations, never values of the entire model.',
  [VM], ['activations', 'metrics'], [('model', VM + ':VisionTransformerMoe'), ('encoder', VM + ':EncoderMoe'), ('sparse layer', VM + ':MlpMoeBlock')],
  ['model outputs', 'metrics', 'intermediate routing'], 'differential monitor: model outputs compared with a NumPy reference of the entire network')
PA = 'vmoe/partitioning.py'
P('P17', 'The logical mesh uses each device once and keeps processes together',
  'For any hardware topology and number of partitions that divide it, the logical mesh contains every device exactly once in the requested '
  '(expert, replica) shape; hardware axes are split so that expert partitions span neighbouring devices in the documented order; tiling by process '
  'keeps the devices of every process contiguous; impossible requests are rejected. Processes then load data for exactly their devices.',
  ['configurations'], 'all hardware mesh shapes, devices per process and partition counts, for CPU, GPU and TPU coordinates',
  'Tests check a few fixed topologies.',
  [PA], ['device mesh'], [('partitions', PA + ':get_hardware_mesh_local_shape'), ('mesh', PA + ':get_auto_logical_mesh'), ('by process', PA + ':get_logical_mesh_tile_by_process')],
  ['returned meshes'], 'invariant monitor over the meshes returned for simulated topologies')
P('P18', 'Partitioning rules pick the first matching rule for every leaf',
  'For any tree of arrays and ordered list of (regex, spec) rules, each leaf with more than one element gets the spec of the first rule whose '
  'regex matches its slash separated path, all others are replicated, and the tree structure is kept. Specs given as string, tuple or None '
  'mean the same, and sharding constraints never change values and are the identity without a mesh.',
  ['inputs', 'configurations'], 'all trees, including train states with optimizer state, and all rule lists',
  'Tests check one tree and two rules.',
  [PA], ['partition specs'], [('rules', PA + ':tree_axis_resources_from_regexes'), ('specs', PA + ':parse_partition_spec')],
  ['returned trees of specs'], 'reference-model monitor on random trees and rules')
IP = 'vmoe/data/input_pipeline.py'
P('P19', 'Evaluation data yields each example exactly once across processes',
  'For any dataset split, number of processes and (divisible) global batch size, the union over processes of the evaluation batches contains '
  'every example exactly once and unaltered, marked as valid (unless preprocessing marked it as invalid); all other entries are zero examples marked as invalid; all processes get the same '
  'number of full batches, in each pass, whatever the caching, prefetching and filtering options (filtered examples excepted). Training data '
  'repeats forever, without fake examples, and processes never share examples. Batch sizes that cannot be divided are rejected.',
  ['configurations', 'histories'], 'all split sizes, shards, sub-splits, process and device counts, batch sizes, cache/prefetch/filter options, repeated passes',
  'Tests use three examples, one process and mocked builders.',
  [IP, 'vmoe/data/builder.py'], ['stream of examples of each process'],
  [('pipeline', IP + ':get_dataset'), ('split per process', 'vmoe/data/builder.py:TfdsBuilder'), ('fakes', 'vmoe/data/builder.py:_get_num_fake_examples')],
  ['ids of all examples yielded by every process'], 'exactly-once checker over the recorded streams of all processes (simulated and real)')
PJ = 'vmoe/data/pjit_utils.py'
P('P20', 'Transfer to devices keeps every batch, its order and its rows',
  'For any iterator, prefetch size and mesh, the device iterator yields exactly the batches of the source in order, with the same structure, '
  'values and dtypes; rows are laid out over the local devices in mesh order, so that the global array contains the batches of all processes; '
  'non-numeric data passes through; at most the given number of batches is read ahead; failures of the source are not hidden. The abstract '
  'description of a dataset agrees with the arrays.',
  ['inputs', 'configurations', 'fault_sequences'], 'all batch structures, lengths, prefetch sizes, meshes, numbers of processes, failure points',
  'Tests check one dataset on one mesh.',
  [PJ], ['device buffers', 'prefetch queue'], [('prefetch', PJ + ':prefetch_to_device'), ('split', PJ + ':put_to_devices'), ('structs', PJ + ':get_dataset_shape_dtype_struct')],
  ['source batches', 'yielded arrays and shards'], 'trace checker comparing source and device batches shard by shard, including real 2-process runs')
PP = 'vmoe/data/pp_ops.py'
P('P21', 'Preprocessing ops compute what they document and touch only their key',
  'For any image and label, every op computes its definition (central and random crops are windows of the image with the requested area, resizing '
  'keeps dtype and does not wrap values around, flips mirror, one-hot labels, value ranges, decoding, masks for missing labels), writes only its output key, '
  'leaves all others unchanged, and process strings apply their ops in order with the given arguments, eagerly and in graphs.',
  ['inputs', 'configurations'], 'all images, labels, keys, arguments and op sequences',
  'Tests check output shapes of single calls.',
  [PP, IP], ['example dictionary'], [('ops', PP), ('keys', PP + ':InKeyOutKey'), ('strings', IP + ':get_data_process_fn')],
  ['inputs and outputs of every op'], 'input/output monitor with NumPy definitions of the ops, windows located in the source image')
EV = 'vmoe/evaluate/evaluator.py'
P('P22', 'Evaluation metrics are exact averages over real examples only',
  'For any datasets, masks, losses (per example or class), models and meshes, the reported loss and precision of each dataset equal the averages over its valid examples '
  'of the current parameters: fake examples, other datasets, earlier evaluations and the mesh never influence them. Evaluation runs on exactly '
  'the configured steps, is repeatable for a seed, and uses fresh randomness for each batch.',
  ['inputs', 'configurations', 'histories'], 'all datasets, masks, labels, losses, parameters, meshes, step schedules',
  'Tests use a parameter-free model and fixed data.',
  [EV], ['EvalState accumulators', 'compiled functions'], [('step', EV + ':evaluate_step'), ('loop', EV + ':EvaluateMultipleDatasets')],
  ['written metrics'], 'reference-model monitor over written metrics')
FS = 'vmoe/evaluate/fewshot.py'
P('P23', 'Few-shot accuracy is that of ridge regression on at most k real examples',
  'For any datasets, shots, L2 values, seeds and meshes, each reported few-shot accuracy is that of a ridge-regression classifier fitted on '
  'the features of at most `shots` real training examples of each class (all of them if there are fewer) and evaluated on every real test example exactly once, '
  'with the current parameters; the reported best L2 is one of those given and maximises the reported criterion; fake examples and other '
  'datasets have no influence; in a training the features are those of the evaluation model (its overrides, no randomness); without folding in the step the same examples are chosen each time; it runs on exactly the configured steps.',
  ['inputs', 'configurations', 'histories'], 'all datasets (unbalanced, absent classes), shots, L2 values, seeds, parameters, meshes, schedules',
  'Tests mock the representation function or check the solver on one matrix.',
  [FS], ['cached features', 'selected examples'], [('selection', FS + ':_compute_fewshot_metrics'), ('solver', FS + ':_eig_fewshot_acc_fn'), ('loop', FS + ':FewShotPeriodicAction')],
  ['written few-shot metrics'], 'reference-model monitor: accuracies of all possible choices of examples, solved in float64')
P('P24', 'Losses and predictions follow their definition and never overflow',
  'For any logits (however large, or minus infinity) and labels, each training and evaluation loss equals its definition (softmax and sigmoid '
  'cross-entropy; ensembles: the loss of every member in training, and the loss of the averaged probabilities in evaluation), its value and gradient are finite whenever the definition is; '
  'predicted classes are the most probable ones (of the averaged probabilities); an ensemble of one, or of equal members, agrees with the '
  'plain loss; unknown losses are rejected.',
  ['inputs', 'configurations'], 'all logits, labels, ensemble sizes, numbers of classes',
  'Tests compare a handful of well-conditioned values.',
  ['vmoe/evaluate/ensemble.py', 'vmoe/train/trainer.py', 'vmoe/utils.py'], ['losses and gradients'],
  [('ensembles', 'vmoe/evaluate/ensemble.py'), ('selection', 'vmoe/train/trainer.py:get_loss_fn'), ('safe product', 'vmoe/utils.py:multiply_no_nan')],
  ['losses, gradients and predictions'], 'reference-model monitor (float64 log-sum-exp) with finite-difference gradients')
OP = 'vmoe/train/optimizer.py'
P('P25', 'Optimizer steps apply the configured chain to every parameter by name',
  'For any parameter tree, gradients and rules, every update applies clipping, the optimizer, per-parameter scaling, decoupled weight decay '
  'and the scheduled learning rate to each parameter, the first matching regex deciding for each name; frozen parameters never change; '
  'the order or kind of the containers does not matter; reported norms and learning rates are those used; the step counter increases by one; conflicting options are rejected.',
  ['inputs', 'configurations', 'histories'], 'all trees, gradients, rules, optimizers, clipping values, schedules, numbers of steps',
  'Tests check single transformations on fixed trees.',
  [OP, 'vmoe/train/train_state.py'], ['optimizer state', 'parameters'],
  [('chain', OP + ':create_optimizer'), ('decay', OP + ':add_decayed_weights'), ('freeze', OP + ':freeze_weights'), ('state', 'vmoe/train/train_state.py:TrainState')],
  ['parameters after every step'], 'reference-model monitor: NumPy float64 optimizer by parameter path')
P('P26', 'Learning rates follow the schedule at every step and stay in bounds',
  'For any schedule and arguments, the value at every step (warmup, decay, cooldown, and beyond the last step) equals the formula of that '
  'schedule, is never negative, never exceeds the peak, and is the same eagerly, compiled or vectorised; the number of decay steps defaults '
  'to the number of training steps; unknown or contradictory arguments are rejected.',
  ['inputs', 'configurations'], 'all schedules, arguments and steps',
  'Tests sample a few steps of a few schedules.',
  ['vmoe/train/schedule.py'], ['schedule values'], [('schedules', 'vmoe/train/schedule.py:create_learning_rate_schedule'), ('rsqrt', 'vmoe/train/schedule.py:big_vision_rsqrt_schedule')],
  ['value at every step'], 'trace monitor over whole schedules against closed formulas')
TR = 'vmoe/train/trainer.py'
P('P27', 'A training step applies the average gradient of its batch, with fresh keys',
  'For any model, loss, batch, mesh and number of microsteps, one training step changes the parameters by exactly one optimizer update with the '
  'gradient, averaged over all examples of the batch (each used exactly once), of the mean loss plus the auxiliary loss; reported metrics are the averages over the same passes; the '
  'step count increases by one; every forward pass uses random keys never used before in that training; the given state is not modified; '
  'microsteps that do not divide the batch are rejected.',
  ['inputs', 'configurations', 'histories'], 'all models, losses, batch sizes, meshes, microsteps, numbers of consecutive steps',
  'Tests compare the accumulated gradients of one fixed function; lost examples, wrong scaling or repeated keys show for particular splits and histories.',
  [TR, 'vmoe/utils.py', 'vmoe/train/train_state.py'], ['train state', 'random keys'],
  [('step', TR + ':train_step'), ('accumulation', TR + ':accumulate_gradients_and_metrics'), ('keys', 'vmoe/utils.py:tree_rngs_split')],
  ['examples and keys of every forward pass', 'state and metrics after each step'],
  'pass-recording monitor (callbacks inside the model) with NumPy float64 gradients over the recorded passes')
P('P28', 'Mixup mixes images and labels with the same convex weights, per device',
  'For any batch, mixing size, concentration and granularity, every mixed example is a convex combination of examples of the same device '
  'shard (the original and the following ones), images and labels with the same weights; weights follow the Dirichlet distribution and are shared by '
  'the whole batch, by the device or by nobody as configured; each step uses fresh weights, all other random streams are untouched, the given state is not '
  'modified; a zero or missing concentration disables it, invalid values are rejected.',
  ['inputs', 'configurations', 'histories'], 'all batch shapes, trees, sizes, concentrations, granularities, meshes, consecutive steps',
  'Tests check shapes and one fixed mocked weight vector.',
  [TR], ['mixing matrix', 'mixup key'], [('mixup', TR + ':mixup'), ('wrapper', TR + ':wrap_train_step_with_mixup')],
  ['images, labels and state received by the wrapped step'], 'operator-recovery monitor (one-hot rows give the mixing matrix), structural and statistical oracle')
P('P29', 'Interrupted training resumes and ends as if it had not been interrupted',
  'For any training configuration and any sequence of crashes (exceptions or kills, between steps or inside checkpoint writes) and restarts, possibly on '
  'another mesh, the final checkpoint, the per-step metrics and the evaluation metrics equal those of the uninterrupted training; every step up to the configured '
  'number (or epochs) runs; checkpoints are written at the configured steps and after the last one, only the configured ones are kept, and a finished training is not trained further.',
  ['crash_points', 'histories', 'configurations', 'fault_sequences'], 'all short trainings, crash points, numbers of restarts, meshes',
  'Tests run the loop once with mocked parts; the state restored after a crash is only compared in shape.',
  [TR, 'vmoe/train/periodic_actions.py', CK + 'partitioned.py'], ['checkpoints on disk', 'written metrics'],
  [('loop', TR + ':train_and_evaluate'), ('restore', TR + ':restore_or_create_train_state'), ('saving', 'vmoe/train/periodic_actions.py:PeriodicCheckpointManager')],
  ['checkpoint contents', 'metrics given to the writer'], 'differential history monitor: interrupted versus uninterrupted executions in real processes killed at injected points', 'fault_enumeration',
  'crash points are sampled, not enumerated')
IN = 'vmoe/initialization/initialization.py'
P('P30', 'A train state comes from the last checkpoint, else rules plus fresh init',
  'For any model, optimizer, seed, mesh, sharding rules and workdir contents, the initial train state is the last complete checkpoint of the workdir if there is one; otherwise '
  'the fresh initialization of the seed in which exactly the leaves selected by the rules are replaced by the pretrained arrays (V-MoE, old V-MoE, ViT or Orbax '
  'format); every leaf has the sharding of its first matching rule and the same value on any mesh.',
  ['inputs', 'configurations', 'histories'], 'all models, seeds, meshes, rules, workdir contents, pretrained formats',
  'Tests mock the checkpoint functions.',
  [TR, IN], ['train state'], [('choice', TR + ':create_or_reuse_train_state'), ('restore', TR + ':restore_or_create_train_state'), ('formats', IN + ':initialize_from_vmoe')],
  ['every leaf of the state and its sharding'], 'reference-state monitor: leaves compared with harness-written arrays and an unsharded initialization')
MP = 'vmoe/initialization/mapping.py'
P('P31', 'Mapping a checkpoint to a model applies the first matching rule to each array',
  'For any source tree, target tree and rules, each source array is transformed by the first rule that matches its name (renamed, dropped, reshaped, squeezed, stacked in '
  'natural order, tiled, zoomed, position embeddings interpolated) and lands in the named target leaf with the dtype and placement of that leaf; all other '
  'target leaves keep their value; arrays without a rule, target leaves left uninitialized, shape mismatches and duplicates are reported as configured and never lost silently.',
  ['inputs', 'configurations'], 'all source and target trees, rules, shapes, dtypes, shardings, error options',
  'Tests check single rules with a fixed small tree.',
  [MP, 'vmoe/initialization/rules.py'], ['mapped tree'], [('mapping', MP + ':map_state_dict'), ('rules', 'vmoe/initialization/rules.py:Rules')],
  ['every mapped leaf, its sharding, errors raised'], 'reference-model monitor: independent NumPy implementation of the rules')
AT = 'vmoe/projects/adversarial_attacks/'
P('P33', 'Adversarial images stay within the budget and follow the gradient sign',
  'For any model, loss, images and number of updates, no pixel changes by more than the budget; each update moves every pixel by budget/updates in the direction of the sign of '
  'the gradient of the attacked loss (with or without the auxiliary loss) at the current images, pixels with zero gradient stay; each update uses its own random keys; '
  'a training step wrapped with the attack trains on the attacked images with the same labels, and without updates or budget it is the plain step.',
  ['inputs', 'configurations'], 'all models, losses, images, budgets, numbers of updates, random keys, meshes',
  'Tests check one or two updates of a fixed linear loss.',
  [AT + 'attacks.py', TR], ['attacked images', 'random keys'], [('attack', AT + 'attacks.py:stateless_attack_pgd'), ('wrapper', TR + ':wrap_train_step_with_adversarial_attack')],
  ['every gradient evaluation', 'images received by the wrapped step'], 'iteration-recording monitor with NumPy float64 re-execution')
P('P34', 'Attack statistics are exact sums, reported routing is the applied one',
  'For any dataset, model and mesh, the numbers of images, correct and changed predictions, losses and routing changes reported by an attack are exact totals over the real images, each counted '
  'once; padding has no influence; the stored examples are those images with their predictions and losses; the reported combine weights of each router are those with which its experts are '
  'combined (zero for items over capacity); routing similarity is the intersection over union of the used experts.',
  ['inputs', 'configurations'], 'all datasets, batch sizes, models, dispatchers, capacities, meshes, storage periods',
  'Tests use hand-written combine weights and mock the attack.',
  [AT + 'attacks.py', AT + 'restore.py', AT + 'lib.py'], ['attack state', 'stored examples'],
  [('statistics', AT + 'attacks.py:stateful_attack'), ('routing', AT + 'restore.py:get_combine_weights'), ('run', AT + 'lib.py:run_pgd_attack'), ('storage', AT + 'lib.py:ExampleStorage')],
  ['returned state', 'files and metrics written'], 'conservation monitor: totals recomputed from the stored examples and a re-executed model')
CO = 'vmoe/projects/contrastive/'
P('P35', 'Contrastive training pairs each image with its text and follows its definition',
  'For any two-tower model, images and texts, the embeddings of each tower have unit norm and depend only on the inputs and parameters of that tower, the logits are the scaled (and shifted) inner products of all '
  'pairs, texts are pooled as configured; the sigmoid loss equals its definition and is finite for any logits; a training step pairs each image with its own text, uses each pair once and applies '
  'the average gradient; interrupted contrastive training resumes to the same result; retrieval and zero-shot evaluations run on exactly the configured steps with the parameters of that step.',
  ['inputs', 'configurations', 'histories', 'crash_points'], 'all towers, pooling types, inputs, logits, batch sizes, microsteps, meshes, crash points',
  'The only test runs one forward pass on zeros.',
  [CO + 'models.py', CO + 'trainer.py', CO + 'evaluators.py'], ['embeddings', 'train state'],
  [('model', CO + 'models.py:TwoTower'), ('loss', CO + 'trainer.py:sigmoid_loss'), ('step', CO + 'trainer.py:train_step'), ('loop', CO + 'trainer.py:train_and_evaluate'), ('evaluators', CO + 'evaluators.py:RetrievalPeriodicAction')],
  ['logits and embeddings', 'pairs of every forward pass', 'checkpoints and metrics written'], 'differential monitor: single-tower executions, recorded passes, uninterrupted runs, NumPy definitions')
P('P36', 'Configuration strings resolve to the named callable and never execute code',
  'For any call string in a configuration, the callable returned is the named one and its arguments are exactly the given literals, and anything that is not a name with literal arguments is rejected without '
  'calling anything; zipping iterables of different lengths is an error and otherwise equals zip, lazily; regex lists match as any of them; partially applied classes combine arguments per instance; split random keys never repeat; '
  'overriding a configuration merges into a copy and leaves the base untouched.',
  ['inputs', 'configurations'], 'all call strings (hostile ones included), iterables, regex lists, arguments, seeds, configurations',
  'Tests sample a handful of strings and lengths.',
  ['vmoe/utils.py', TR], ['resolved callables'],
  [('calls', 'vmoe/utils.py:parse_call'), ('zip', 'vmoe/utils.py:SafeZipIterator'), ('keys', 'vmoe/utils.py:tree_rngs_split'), ('override', TR + ':override_base_config')],
  ['returned callables and arguments', 'canary functions'], 'generated inputs with canary monitors for executed code, reference results')
P('P37', 'Barriers hold back every process; reports and summaries are exact',
  'In any job, no process leaves a barrier before the last one has entered it, and processes that use another name than the main process get an error; progress reports contain every given metric, at the configured steps and the '
  'last one, written by the configured process only; single-process actions run there only; array summaries are the requested reductions of every matching array under unique names, and too many values are rejected.',
  ['schedules', 'inputs', 'configurations'], 'all numbers of processes, arrival orders, names, report periods, trees and rules',
  'Tests run a single process, where barriers are trivial.',
  ['vmoe/multihost_utils.py', 'vmoe/train/periodic_actions.py', 'vmoe/train/tree_summarizer.py', TR], ['entry and exit times', 'written metrics'],
  [('barrier', 'vmoe/multihost_utils.py:sync_devices'), ('reports', 'vmoe/train/periodic_actions.py:ReportProgress'), ('summaries', 'vmoe/train/tree_summarizer.py:TreeSummarizer')],
  ['shared-clock event log of all processes', 'metrics given to the writers'], 'offline ordering checker over event logs of real processes with injected delays; NumPy reductions')
P('P38', 'Every shipped configuration runs, with the model it names',
  'Each configuration in the repository, for every model it offers, trains and evaluates when given to the trainer it is written for: its preprocessing, model, loss, mixup, optimizer, schedule, summaries and hooks are accepted and fit together at '
  'full size; the model has the layers, experts, patches and widths its description names; expert parameters and their optimizer state, and nothing else, are partitioned along the experts; validation data is disjoint from training data; '
  'fine-tuning starts from every parameter of the named checkpoint except the head; the learning rate warms up to its peak and ends at its end value.',
  ['configurations', 'programs'], 'all configuration files and models, and all descriptions accepted by the functions that build models from them',
  'No test imports a configuration; a name that no longer resolves is found only when a user starts a training.',
  ['vmoe/configs', 'vmoe/projects/soft_moe/configs', 'vmoe/projects/adversarial_attacks/configs', TR], ['configurations', 'parameter shapes and partitions', 'metrics of trainings'],
  [('model of a description', 'vmoe/configs/vmoe_paper/common.py:get_vmoe_config'), ('soft moe models', 'vmoe/projects/soft_moe/configs/common.py:get_vmoe_soft_router_config'), ('training', TR + ':train_and_evaluate')],
  ['shapes, partitions and metrics of traced full-size trainings', 'checkpoints and metrics of reduced trainings'], 'monitored real trainings of every configuration (reduced) and traced full-size steps, against an independent reading of the descriptions and the starting checkpoint')
P('P39', 'The main programs run the configured job and leave its metrics on disk',
  'Started with any configuration file, overrides and workdir, each main program runs its trainer exactly once with that configuration (overrides applied with their types, unknown names rejected), that workdir and a mesh of the configured '
  'number of expert partitions over all devices; without a configuration or workdir nothing runs. Everything reported is on disk in event files when it ends, also when it ends with an error, which is not hidden. Killed at any time and started '
  'again with the same flags it continues from its checkpoints and finishes with the result and metrics of an uninterrupted run.',
  ['inputs', 'crash_points', 'configurations'], 'all configuration files, overrides, device counts, outcomes and kill points',
  'No test starts a main program; losing metrics, hiding errors or ignoring overrides shows only in a real run.',
  ['vmoe/app.py', 'vmoe/train/main.py', 'vmoe/projects/soft_moe/main.py', 'vmoe/projects/soft_moe/main_contrastive.py', AT + 'main.py'], ['arguments of the trainer', 'event files', 'exit status', 'checkpoints'],
  [('program', 'vmoe/app.py:_main'), ('training', TR + ':train_and_evaluate')],
  ['arguments received by the trainer', 'event files, exit status and checkpoints of killed and restarted processes'], 'real processes of the main programs with a recorder in the trainer or real killed trainings; offline check of the recorded arguments, event files and checkpoints')
P('P10', 'A restore reads only the files it needs, once, within its read budget',
  'While restoring a sharded checkpoint with a limit on the bytes read concurrently, the data files being read at any moment have together '
  'at most that many bytes (a single file larger than the limit is read alone), for any file sizes, limit and thread pool. Each process reads '
  'exactly the data files which hold elements it needs, each of them once, and the restored values do not depend on the limit.',
  ['schedules', 'inputs', 'configurations'],
  'all checkpoints (equal and uneven file sizes), limits, pool sizes, placements, schedules of the reading threads',
  'Tests restore without a limit; overshooting depends on sizes, pool and timing and shows only as memory use.',
  [CK + 'partitioned.py'], ['files being read', 'memory for file contents'],
  [('files per thread', CK + 'partitioned.py:_restore_checkpoint_from_index'), ('needed files', CK + 'partitioned.py:_find_ckpt_shards_to_restore')],
  ['reads of data files and their overlap', 'restored values'],
  'online monitor of overlapping file reads (delays injected in each read) against the byte budget and the set of needed files')
P('P32', 'Training in several processes computes what one process computes',
  'A training job spread over any number of processes, with any number of devices each and any split of the experts, reports the same losses, '
  'metrics, few-shot and evaluation results and saves the same checkpoints as a single process that trains on the same global batches, up to '
  'rounding. All its processes agree on what they report. This also holds when the job is stopped and goes on with another number of processes.',
  ['configurations', 'histories', 'schedules'],
  'all process counts, devices per process, expert partitions, models, routers, training options, restarts',
  'Tests run in one process; wrong gathers, missing synchronisation or unequal data appear only with real processes.',
  ['vmoe/train/trainer.py', 'vmoe/projects/contrastive/trainer.py', 'vmoe/partitioning.py', 'vmoe/data/pjit_utils.py', 'vmoe/evaluate/evaluator.py', 'vmoe/evaluate/fewshot.py'],
  ['parameters and optimizer state across processes', 'data positions', 'checkpoints'],
  [('training loop', 'vmoe/train/trainer.py:train_and_evaluate'), ('contrastive loop', 'vmoe/projects/contrastive/trainer.py:train_and_evaluate'),
   ('global batches', 'vmoe/data/pjit_utils.py:prefetch_to_device'), ('mesh', 'vmoe/partitioning.py:get_auto_logical_mesh')],
  ['scalars reported by every process', 'saved arrays'],
  'differential runtime monitor: complete real multi-process trainings against a single-process training on the same global batches')
# --- more properties are appended by the sections below ---


def main():
  have = [p for p in PROPS if os.path.exists(os.path.join(HERE, 'checks', p['prop']['id'].lower() + '.py'))]
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
    for p in have:
      fp.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')
  manifest = dict(
      version=1, setup_cmd='true',
      hooks=dict(guard='none', enable='no hooks in /repo: monitors attach from /verif at run time', source_commits=[]),
      checks=[p['check'] for p in have], not_applicable=[],
      notes='Generated by props.py. Every check runs /repo from its working tree (pure Python, nothing to build).')
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(manifest, fp, indent=1)
    fp.write('\n')


if __name__ == '__main__':
  main()
