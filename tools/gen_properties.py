#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         state=None):
    a = dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


R = 'mmrazor/engine/runner/'
M = 'mmrazor/models/'
prop('C01', 'Evolution search keeps the best legal subnets it has scored',
     'At the end of every epoch of an evolution search the candidate pool that was scored holds exactly the requested number of candidates, every one of them is a legal choice of the search space that satisfies every resource constraint under its recorded resources, and the recorded score of each is the metric of that very subnet. The kept top-k are exactly the k best scores over everything scored so far, in descending order, so the best score never decreases. The next generation (mutation plus crossover) contains only legal, constraint-satisfying subnets and never exceeds the requested numbers.',
     ['inputs', 'histories', 'configurations'],
     'every search space, constraint range, pool/top-k/mutation/crossover sizes, metric landscape (ties, zeros, empty metrics) and random stream',
     'Unit tests run one epoch with a mocked mutator that always returns one fake subnet and mocked FLOPs; nothing checks scores, legality, or top-k over several generations.',
     [R + 'evolution_search_loop.py', R + 'utils/check.py', R + 'utils/genetic.py', 'mmrazor/structures/subnet/candidate.py', M + 'mutators/nas_mutator.py'],
     [('generation step', 'EvolutionSearchLoop.run_epoch'), ('constraint screening', 'check_subnet_resources'), ('crossover', 'crossover'), ('pool container', 'Candidates')],
     ['EvolutionSearchLoop.candidates / top_k_candidates after each run_epoch', 'runner.model.val_step calls'])
prop('C02', 'An evolution search killed anywhere resumes without losing work',
     'If an evolution search process is killed at any point, or a write to its working directory fails, then once one epoch has been saved some saved searcher checkpoint is always loadable and is at most one epoch older than the last completed epoch. Resuming from it restores the saved epoch counter, candidate pool and top-k, runs exactly the remaining epochs up to the configured total, and the final best subnet is at least as good as everything scored in the epochs that were kept. No more than the configured number of searcher checkpoints remain after any completed save.',
     ['crash_points', 'fault_sequences', 'histories', 'configurations'],
     'every crash or I/O-error point in the sequence of file operations and evaluations, any number of crash/resume rounds, any retention setting',
     'The one resume test resumes from a mocked run with all but one epoch done and asserts only a counter; no test kills the process, tears a file, resumes in the middle or counts the epochs actually executed.',
     [R + 'evolution_search_loop.py'],
     [('resume', 'EvolutionSearchLoop._resume'), ('checkpoint + retention', 'EvolutionSearchLoop._save_searcher_ckpt'), ('epoch loop', 'EvolutionSearchLoop.run')],
     ['work_dir/search_epoch_N.pkl', 'work_dir/best_fix_subnet.yaml', 'work_dir/subnet_*.pth'])
prop('C03', 'Ranks of a distributed search agree, never deadlock, one writes',
     'In a distributed evolution search every rank evaluates the same candidates in the same order and ends every epoch with the same top-k candidates and epoch counter, including after a resume, whatever the relative speed of the ranks and however their random streams differ. All ranks issue matching collective operations and terminate; only rank 0 writes or deletes files.',
     ['schedules', 'configurations', 'crash_points'],
     'every interleaving of 1-4 ranks, differing per-rank random streams, fresh and resumed searches',
     'Tests set rank=0 and a flag; no second rank is ever run, so divergence and deadlock are unobservable.',
     [R + 'evolution_search_loop.py', R + 'utils/calibrate_bn_mixin.py'],
     [('candidate broadcast', 'EvolutionSearchLoop.sample_candidates'), ('resume', 'EvolutionSearchLoop._resume'), ('rank-0 writers', '_save_searcher_ckpt/_save_best_fix_subnet')],
     ['torch.distributed calls per rank', 'file operations per rank'])
prop('C04', 'An exported subnet equals the supernet at those choices',
     'For any supernet and any sequence of choice changes, training steps and exports, exporting the current subnet does not alter the supernet (its choices, parameters, buffers, mode or outputs). The exported description, after a round trip through its file format and loaded into a freshly built supernet, together with the exported weights, gives a fixed network with no mutable parts left whose outputs equal those of the supernet at those choices; sliced exports equal unsliced ones.',
     ['histories', 'inputs', 'configurations', 'programs'],
     'every generated search space (value, module and channel choices), every choice, every history of set/sample/train/export operations, fresh-process style reload from files only',
     'Tests export a fixed few architectures once, mostly comparing keys or shapes and never after a history of operations, nor comparing outputs of the reloaded subnet with the supernet.',
     ['mmrazor/structures/subnet/fix_subnet.py', M + 'mutables/base_mutable.py', M + 'mutables/derived_mutable.py', M + 'mutables/mutable_module/one_shot_mutable_module.py', M + 'architectures/dynamic_ops/mixins/dynamic_conv_mixins.py'],
     [('export', 'export_fix_subnet'), ('load', 'load_fix_subnet'), ('file format', 'convert_fix_subnet'), ('fixing', 'fix_chosen / dump_chosen'), ('slicing', 'to_static_op')],
     ['forward outputs', 'state_dict', 'yaml file'])
prop('C05', 'Greedy width search meets every target, also across a crash',
     'A greedy width search visits FLOPs targets in descending order and for every target it reports one subnet whose resources do not exceed the target, obtained from the previous subnet by shrinking exactly one group by one step at a time, always the shrink with the best score. If the process is killed or a write fails at any point and the search is resumed from its saved state, the finished search still yields one subnet file for every target and, when evaluation is deterministic, the same subnets as an uninterrupted search.',
     ['crash_points', 'fault_sequences', 'inputs', 'configurations'],
     'every crash/I-O error point, target list, group structure and score landscape',
     'The existing test runs the loop once with mocks and one resume from a complete state.',
     [R + 'autoslim_greedy_search_loop.py'],
     [('search step', 'AutoSlimGreedySearchLoop.run'), ('save/resume', '_save_searcher_ckpt/_resume/_init')],
     ['work_dir/latest.pkl', 'work_dir/subnet_<flops>.yaml', 'searched_subnet'])
prop('C06', 'Any history of architecture choices leaves a consistent model',
     'After any sequence of sampling, setting, resetting to maximum or minimum, and (at the end) fixing choices, every searchable part reports a legal current choice, all parts of one group hold the same choice, values derived from a choice follow it, and reading the choices back after setting them gives exactly what was set. The model still runs, with every layer using exactly the selected channels or branches, and depends only on the current choices and weights, never on the choices made before.',
     ['histories', 'inputs', 'configurations', 'programs'],
     'every generated search space, random stream and sequence of choice operations on module, value and channel choices',
     'Tests set a handful of choices on single mutables; history independence and group consistency over op sequences are not exercised.',
     [M + 'mutators/nas_mutator.py', M + 'mutators/channel_mutator/channel_mutator.py', M + 'mutables/mutable_channel/oneshot_mutable_channel.py', M + 'mutables/mutable_channel/simple_mutable_channel.py', M + 'mutables/derived_mutable.py', M + 'mutables/mutable_module/one_shot_mutable_module.py', M + 'mutables/mutable_value/mutable_value.py', M + 'mutables/mutable_channel/units/sequential_mutable_channel_unit.py'],
     [('mutator choice API', 'NasMutator/ChannelMutator set_choices, sample_choices, current_choices'), ('grouping', 'GroupMixin'), ('channel masks', 'MutableChannelContainer')],
     ['mutator.current_choices', 'forward outputs'])
prop('C07', 'Recorders and deliveries leave the patched code as they found it',
     'Entering a set of recorders or deliveries and leaving it, normally or through an exception at any point including a failure while entering, restores every function, method and module hook to exactly what it was before, for any number of recorders or deliveries sharing a target, in any order and over any number of iterations. While active, each recorder holds exactly the inputs or outputs of the calls made since it was entered, in call order, and the wrapped code computes the same results as without it.',
     ['fault_sequences', 'histories', 'configurations'],
     'every combination of recorders/deliveries over shared and nested targets, exception points in enter/body, and number of iterations',
     'Tests use one recorder per target, one iteration, and no exception path.',
     [M + 'task_modules/recorder/recorder_manager.py', M + 'task_modules/recorder/function_outputs_recorder.py', M + 'task_modules/recorder/method_outputs_recorder.py', M + 'task_modules/recorder/method_inputs_recorder.py', M + 'task_modules/recorder/function_inputs_recorder.py', M + 'task_modules/delivery/delivery_manager.py', M + 'task_modules/delivery/function_outputs_delivery.py', M + 'task_modules/delivery/method_outputs_delivery.py'],
     [('context management', 'RecorderManager / DistillDeliveryManager __enter__/__exit__'), ('patching', 'FunctionOutputsRecorder, MethodOutputsRecorder, FunctionOutputsDelivery, MethodOutputsDelivery')],
     ['module attributes of the patched targets', 'recorded data buffers'])
prop('C08', 'Distillation never changes a frozen teacher and never mixes batches',
     'While a student is distilled from a frozen teacher, the teacher parameters and buffers are bit-identical to those loaded and its normalisation layers stay in evaluation mode, whatever the number of steps, train/eval switches and failed steps, and no gradient reaches the teacher. Every distillation loss of a step is computed only from features and deliveries of that same batch, also after a step that failed. In data-free distillation the student and the generator are each updated only from the gradients of their own loss. When distillation is configured to stop at an epoch, the distillation losses are present before that epoch and absent from it on, in an uninterrupted run and in a run resumed at any epoch alike.',
     ['histories', 'fault_sequences', 'crash_points', 'configurations'],
     'every sequence of train steps, train/eval switches, failing forward passes, and stop/resume epochs',
     'Tests run one loss computation; failed steps, mode flips over time and resumed stop epochs are never exercised.',
     [M + 'algorithms/distill/configurable/single_teacher_distill.py', M + 'algorithms/distill/configurable/datafree_distillation.py', M + 'distillers/configurable_distiller.py', 'mmrazor/engine/hooks/stop_distillation_hook.py', M + 'task_modules/delivery/distill_delivery.py'],
     [('train/eval switch', 'SingleTeacherDistill.train'), ('loss', 'SingleTeacherDistill.loss'), ('stop', 'StopDistillHook.before_train_epoch'), ('deliveries', 'DistillDeliveryManager')],
     ['teacher.state_dict()', 'loss dict keys and values'])
prop('C09', 'Sandwich training updates once per batch from exactly its subnets',
     'One training step of a sandwich-rule supernet (universally slimmable, BigNAS style, and multi-width slimmable) evaluates the largest, the smallest and the configured number of sampled subnets on that batch, accumulates exactly the gradients of their losses and then performs one optimizer update (or the configured accumulation). A step that fails before its update leaves parameters unchanged and does not leak recorded features or choices into later steps: once its gradients have been dropped, they behave as if the failed step had not happened.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'every sequence of batches, sampled widths and failing steps, with and without gradient accumulation',
     'Tests call train_step once and check that loss keys exist.',
     [M + 'algorithms/nas/autoslim.py', M + 'algorithms/nas/bignas.py', M + 'algorithms/pruning/slimmable_network.py', M + 'utils/optim_wrapper.py'],
     [('train step', 'AutoSlim.train_step / BigNAS.train_step / SlimmableNetwork.train_step'), ('single update', 'reinitialize_optim_wrapper_count_status')],
     ['parameters after each step', 'gradients'])
prop('C10', 'Alternating search loops pair every batch and survive exhaustion',
     'A training loop that alternates between an architecture loader and a weight loader runs exactly the requested number of iterations or epochs: each iteration delivers one batch from every loader, no loader delivers a batch twice within a pass, a pass lasts as long as the shortest loader has batches, and then all loaders start the next pass together with its epoch announced to their samplers. This holds for any mixture of loader lengths, and after resuming at any iteration the loop runs only the remaining ones.',
     ['histories', 'configurations', 'crash_points'],
     'every combination of loader lengths, epoch/iteration counts and resume points',
     'Tests use two loaders of equal length and never exhaust one.',
     [R + 'darts_loop.py'],
     [('epoch based alternation', 'DartsEpochBasedTrainLoop.run_epoch'), ('iteration based alternation', 'IterMultiLoader.__next__ / DartsIterBasedTrainLoop.run')],
     ['batches seen by model.train_step'])
prop('C11', 'Greedy-sampling supernet training trains only legal pool subnets',
     'In greedy path-sampling supernet training every iteration trains the subnet that was sampled for it, and that subnet satisfies the configured constraints. The probability of drawing from the greedy pool follows the configured schedule over iterations, pool validation happens only at its configured iterations, the pool never grows beyond its configured size and keeps the best-scored candidates in descending order.',
     ['histories', 'inputs', 'configurations'],
     'every schedule, pool size, validation interval, score landscape and random stream over whole runs',
     'Tests call sampling helpers once each with mocks.',
     [R + 'subnet_sampler_loop.py'],
     [('iteration', 'GreedySamplerTrainLoop.run_iter'), ('pool update', 'update_candidates_scores'), ('schedule', 'update_cur_prob')],
     ['mutator choices at each train_step', 'candidates / top_k_candidates'])
prop('C12', 'Batch-norm calibration is exact and leaves no trace but statistics',
     'Calibrating batch-norm statistics on N samples sets the statistics of every normalisation layer exercised to the average over exactly the first N samples (each rank taking an equal share of what remains), independent of the statistics before, so that calibrating twice gives the same result. It changes nothing else: parameters, momentum and forward hooks are as before, also when a forward pass or the data loader fails half way, and all ranks end with identical statistics.',
     ['inputs', 'fault_sequences', 'schedules', 'configurations'],
     'every batch-size sequence, sample budget, rank count/interleaving and failing batch',
     'Tests calibrate once on one rank with a fixed dataloader.',
     [R + 'utils/calibrate_bn_mixin.py'],
     [('calibration', 'CalibrateBNMixin.calibrate_bn_statistics')],
     ['running_mean / running_var', 'module hooks'])
prop('C13', 'Iterative pruning reaches its target on schedule, also when resumed',
     'Iterative channel pruning changes the kept channels only at its scheduled iterations, in equal steps that never grow back, keeps exactly the configured number of channels once the schedule is finished, and the pruned structure holds until the end of training. Interrupting training after any iteration and resuming from the saved checkpoint leads to the same channel counts at every later iteration as an uninterrupted run.',
     ['histories', 'crash_points', 'configurations'],
     'every target ratio, number of steps, step interval, epoch length and resume iteration, for iterative pruning and DCFF',
     'Tests check a schedule of one configuration in an uninterrupted run and never resume.',
     [M + 'algorithms/pruning/ite_prune_algorithm.py', M + 'algorithms/pruning/dcff.py', M + 'mutables/mutable_channel/units/l1_mutable_channel_unit.py', R + 'iteprune_val_loop.py'],
     [('schedule', 'ItePruneConfigManager'), ('per iteration', 'ItePruneAlgorithm.forward')],
     ['mutator.current_choices per iteration', 'masks'])
prop('C14', 'Fisher pruning removes one channel at a time and ranks agree',
     'Group-Fisher pruning removes exactly one input channel at every configured interval, never revives a removed channel, never empties a group, and removes the channel with the lowest importance accumulated since the last removal, jointly over all ranks so that all ranks hold identical masks and weights. A training step that fails, or a save and resume at any iteration, does not corrupt later steps: pruning continues from the saved masks, and checkpoints written at resource thresholds always hold the first checked model that reached the threshold.',
     ['histories', 'fault_sequences', 'schedules', 'crash_points'],
     'every sequence of batches, failing steps, resume points, intervals and rank interleavings',
     'Tests run two training steps and one prune on one rank; no failure, resume or multi-rank path.',
     ['mmrazor/implementations/pruning/group_fisher/algorithm.py', 'mmrazor/implementations/pruning/group_fisher/mutator.py', 'mmrazor/implementations/pruning/group_fisher/unit.py', 'mmrazor/implementations/pruning/group_fisher/ops.py', 'mmrazor/implementations/pruning/group_fisher/hook.py'],
     [('train step', 'GroupFisherAlgorithm.train_step'), ('selection', 'GroupFisherChannelMutator.try_prune'), ('records', 'GroupFisherMixin'), ('threshold checkpoints', 'ResourceInfoHook')],
     ['mutable channel masks', 'work_dir/flops_*.pth'])
prop('C15', 'Quantization phases switch observers on schedule and keep learned scales',
     'During quantization-aware training observers and fake-quantizers are enabled exactly in the phases configured: statistics are collected only until the configured epoch or iteration, quantization parameters are frozen afterwards, validation never changes them and reports the metrics of the quantised and of the float network, and the batch-norm statistics of fused conv-bn layers freeze at their configured point. Learned step sizes are initialised from data once and never overwritten later, so training that is interrupted and resumed continues from the saved quantization parameters; calibration visits exactly the configured batches.',
     ['histories', 'crash_points', 'configurations'],
     'every epoch/iteration schedule, train/val alternation and resume point of QAT, LSQ and PTQ loops',
     'Tests run the loops with mocked models, check call counts once, and never resume.',
     [R + 'quantization_loops.py', M + 'fake_quants/lsq.py', M + 'algorithms/quantization/mm_architecture.py'],
     [('QAT phases', 'QATEpochBasedLoop'), ('LSQ phases', 'LSQEpochBasedLoop'), ('learned scale', 'LearnableFakeQuantize')],
     ['observer_enabled / fake_quant_enabled / scale / zero_point of every fake-quantizer'])
prop('C16', 'Multi-subnet validation scores each subnet under its own choice',
     'Validation loops that score several subnets (multi-width, max/min/random supernet validation, teacher plus student, pruned model) run every subnet on the complete validation set with exactly that subnet selected, report each metric under the name of the subnet it belongs to, and evaluate every subnet exactly once per validation in the configured order. They leave parameters and, where statistics are not recalibrated, buffers unchanged. Hooks see one balanced epoch: before_val_epoch and after_val_epoch alternate, so that an averaged (EMA) model is used for every pass and swapped back, and the metrics of all passes are handed on.',
     ['histories', 'configurations', 'inputs'],
     'every number and order of subnets, calibration setting, dataset length and prior choice history',
     'Tests run the loops with mocked evaluators, so which subnet produced which metric is not observed.',
     [R + 'slimmable_val_loop.py', R + 'subnet_val_loop.py', R + 'distill_val_loop.py', R + 'iteprune_val_loop.py'],
     [('multi width', 'SlimmableValLoop.run'), ('max/min/random', 'SubnetValLoop.run'), ('teacher', 'SingleTeacherDistillValLoop.run')],
     ['metrics dict given to after_val_epoch', 'choices at each val_step'])
prop('C17', 'One-shot weight compression sums all data and fails atomically',
     'Post-training weight compression (SparseGPT, GPTQ) derives each layer\'s statistics from every calibration sample exactly once, across all ranks and in whatever batches they arrive, so that all ranks produce the same compressed weights and the result does not depend on how samples were batched. After pruning, every layer has the configured sparsity pattern and surviving computation stays finite; packed quantised layers compute what the layer they were packed from computes; a layer whose compression fails keeps its original weights and can be compressed again later, and registration or removal of recording leaves the model as it was.',
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     'every batch split, rank count and interleaving, degenerate layer inputs (zeros, NaN, singular statistics) and failing layer',
     'Tests run one batch on one process and check that something was pruned.',
     ['mmrazor/implementations/pruning/sparse_gpt/ops.py', 'mmrazor/implementations/pruning/sparse_gpt/compressor.py', 'mmrazor/implementations/quantization/gptq/ops.py', 'mmrazor/implementations/quantization/gptq/compressor.py'],
     [('statistics', 'update_hessian'), ('rank reduction', 'init_hessian / start_init_hessian'), ('pruning', 'SparseGptMixIn.prune'), ('driver', 'SparseGptCompressor')],
     ['layer weights', 'hessian'])
prop('C18', 'Subnet and threshold files written by hooks are complete and loadable',
     'Every subnet description or checkpoint that training hooks have finished writing describes one legal architecture of the search space (for a differentiable search the one with the largest architecture weights, for DMCP one within 5 percent of the target FLOPs or the closest one sampled), is written at exactly the configured intervals, only by rank 0, and can be loaded into a fresh model. A crash or write error at any point leaves every earlier file intact, no more files than configured are kept, and neither dumping nor visualising alters the model being trained or makes the random streams of the ranks diverge.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every interval/epoch combination and every crash or I/O error point in the file operations',
     'Tests call the hook once with mocks and no failing disk.',
     ['mmrazor/engine/hooks/dump_subnet_hook.py', 'mmrazor/engine/hooks/dmcp_subnet_hook.py', 'mmrazor/engine/hooks/visualization_hook.py', 'mmrazor/implementations/pruning/group_fisher/hook.py'],
     [('dump', 'DumpSubnetHook._save_subnet'), ('dump', 'DMCPSubnetHook'), ('visualisation', 'RazorVisualizationHook')],
     ['files in out_dir'])
prop('C19', 'Estimating resources leaves the model untouched and is repeatable',
     'Estimating the FLOPs, parameters or latency of a model, in whole or per sub-module, returns the same numbers every time it is asked for the same architecture, and leaves parameters, buffers, hooks, attributes, training flags and architecture choices of the model as they were, also when the forward pass of the estimate fails. Numbers estimated for a subnet depend only on its choices, never on earlier estimates.',
     ['histories', 'fault_sequences', 'configurations'],
     'every sequence of estimates, choice changes, and failing forward passes on generated supernets',
     'Tests estimate fixed models once and compare to constants.',
     [M + 'task_modules/estimators/resource_estimator.py', M + 'task_modules/estimators/counters/flops_params_counter.py', M + 'task_modules/estimators/counters/latency_counter.py', 'mmrazor/engine/hooks/estimate_resources_hook.py'],
     [('estimate', 'ResourceEstimator.estimate'), ('hooking', 'get_model_flops_params')],
     ['module hooks/attributes before and after', 'returned dict'])
prop('C20', 'Differentiable search fixes the architecture it learned',
     'When a differentiable search derives an architecture (at the end, at its fine-tune epoch or when one option dominates), every choice becomes the option(s) with the largest learned architecture weight, identically on all ranks, and from then on stays fixed and architecture parameters no longer change the network. Training interrupted and resumed at any epoch, before, at or after the fixing epoch, reaches the same fixed state as an uninterrupted run.',
     ['histories', 'crash_points', 'schedules', 'inputs'],
     'every architecture-weight landscape, fix threshold, fine-tune epoch, rank interleaving and resume point',
     'Tests run a single step with mocked epochs and do not resume.',
     [M + 'algorithms/nas/dsnas.py', M + 'algorithms/nas/darts.py', M + 'mutables/mutable_module/diff_mutable_module.py', M + 'mutators/nas_mutator.py'],
     [('fixing', 'DSNAS.train_step/_fix_archtecture'), ('auto-fix', 'OneHotMutableOP.forward_arch_param'), ('derive', 'NasMutator.prepare_arch_params / modify_supernet_forward / sample_choices')],
     ['mutator.current_choices', 'is_fixed of mutables'])
prop('C21', 'DARTS bilevel updates touch only their own parameters',
     'In differentiable architecture search an architecture step changes only architecture parameters and a weight step changes only network weights, in strict alternation, each from its own batch; with second-order (unrolled) updates the architecture gradient is the derivative through one virtual weight step, and the network weights before and after the architecture step are bit-identical, also when the step fails half way.',
     ['histories', 'fault_sequences', 'configurations'],
     'every sequence of batches, unrolled or not, and failing forward/backward at any point of the step',
     'Tests run one step and check that loss keys exist.',
     [M + 'algorithms/nas/darts.py', M + 'algorithms/nas/dsnas.py'],
     [('train step', 'Darts.train_step'), ('unrolled', 'Darts._unrolled_backward')],
     ['named_parameters before/after each step'])
prop('C22', 'DMCP training keeps its width sampling rule over a whole run',
     'Over a DMCP training run architecture parameters are updated only in the configured phase and only every configured interval, weight steps and architecture steps do not change each other\'s parameters, and every sampled width is legal for its group. The target-resource penalty and the sub-networks dumped at the end respect the configured target, and resuming at any epoch enters the same phase an uninterrupted run is in.',
     ['histories', 'crash_points', 'configurations'],
     'every start iteration, interval, sampling seed and resume point',
     'Tests call one train step.',
     [M + 'algorithms/pruning/dmcp.py', M + 'mutators/channel_mutator/dmcp_channel_mutator.py', M + 'mutables/mutable_channel/units/dmcp_channel_unit.py', 'mmrazor/engine/hooks/dmcp_subnet_hook.py'],
     [('train step', 'DMCP.train_step'), ('sampling', 'DMCPChannelMutator.set_choices')],
     ['arch params', 'choices'])
prop('C23', 'Distributed wrappers keep all ranks on the averaged gradient',
     'Training with any distributed wrapper (plain data-parallel and the wrappers of slimmable, autoslim, DMCP, BigNAS, DSNAS, DARTS, Fisher-pruning and quantization algorithms) leaves every rank with bit-identical trainable parameters after every step, including learned quantization scales and architecture parameters, and these parameters moved by the mean of the gradients that the ranks computed on their own batches. All ranks issue matching collectives and terminate whatever their relative speed and however their own random streams differ, and a step that uses every sub-network the algorithm configures trains the same sub-networks as one process would.',
     ['schedules', 'configurations', 'histories'],
     'every interleaving of 1-3 ranks, algorithm and wrapper, per-rank data and random streams, number of steps',
     'Tests wrap a model with a one-process group and call one train step; no second rank ever exists.',
     [M + 'algorithms/pruning/slimmable_network.py', M + 'algorithms/nas/autoslim.py', M + 'algorithms/nas/bignas.py', M + 'algorithms/nas/dsnas.py', M + 'algorithms/nas/darts.py', M + 'algorithms/pruning/dmcp.py', M + 'algorithms/quantization/mm_architecture.py', 'mmrazor/implementations/pruning/group_fisher/algorithm.py'],
     [('wrappers', '*DDP.train_step'), ('gradient synchronisation', 'MMDistributedDataParallel / OptimWrapper.optim_context'), ('collectives', 'torch.distributed calls in the algorithms')],
     ['parameters of every rank after every step', 'torch.distributed calls per rank'])
prop('C24', 'Quantised graphs stay the same network as the float model',
     'After any history of training, calibration, parameter syncs, loading and restarts, every quantised graph with its fake quantizers switched off computes what the float network computes in every forward mode, with the same train/eval behaviour, and layers or parameters reused in the float network are still shared. A restart from the state dict answers the same. Exporting the deploy model changes nothing of the model being trained and yields a network that computes what the quantised network computes with its trained scales and zero points.',
     ['histories', 'programs', 'configurations', 'crash_points'],
     'every generated network with reused layers and branches, quantizer backend, and sequence of train/calibrate/sync/deploy/restart operations',
     'Tests check that fixed toy models get the expected node names and that a deploy model can be built; outputs after a history are never compared.',
     [M + 'algorithms/quantization/mm_architecture.py', M + 'quantizers/', M + 'task_modules/tracer/fx/', 'mmrazor/structures/quantization/'],
     [('build', 'MMArchitectureQuant._build_qmodels'), ('trace', 'build_graphmodule / CustomTracer'), ('sync', 'sync_qparams'), ('deploy', 'get_deploy_model / post_process_for_deploy')],
     ['forward outputs', 'state_dict'])
# pure / not applicable
prop('C30', 'Distillation losses compute their published formulas',
     'Every distillation loss returns the value its definition prescribes for its inputs, finite wherever the definition is finite, with gradients flowing only to the student inputs.',
     ['inputs'], 'all input shapes and values', 'Tests check scalar-ness of the result for a few tensors.',
     [M + 'losses/'], [('losses', 'models/losses/*')])
prop('C31', 'FLOPs and parameter counts equal the analytic counts',
     'The FLOPs and parameter numbers reported for a network equal the analytic multiply-add and element counts of its layers for every supported layer type and configuration.',
     ['inputs', 'programs'], 'all supported layers and configurations', 'Tests compare a few networks to constants.',
     [M + 'task_modules/estimators/counters/op_counters/'], [('op counters', 'op_counters/*')])
prop('C32', 'Channel dependency tracing finds exactly the coupled layers',
     'Tracing a network groups exactly those layer channels that must be pruned together, so that pruning any group to any size yields a network that runs.',
     ['programs'], 'all traceable networks', 'Tests trace a zoo of fixed models.',
     [M + 'task_modules/tracer/channel_analyzer.py', 'mmrazor/structures/graph/'], [('analysis', 'ChannelAnalyzer'), ('graph', 'ChannelGraph')])
prop('C33', 'Checkpoint converters map every weight to its new name',
     'Each checkpoint conversion tool maps every weight of the source layout to its name in the target layout without losing or mixing weights.',
     ['inputs'], 'all checkpoints of the supported layouts', 'The tools have no tests.',
     ['tools/model_converters/'], [('converters', 'tools/model_converters/*.py')])
prop('C34', 'Metric predictors rank architectures consistently with training data',
     'A metric predictor fitted on evaluated subnets, saved and loaded again, predicts the same values, and encodes distinct subnets distinctly.',
     ['inputs', 'configurations'], 'all sample sets and handlers', 'Tests fit one predictor per handler on toy data; the encoding tests already fail on the installed numpy.',
     [M + 'task_modules/predictor/'], [('predictor', 'MetricPredictor')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
