"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


prop('C01', 'Saving and loading agree on every item of the stored state',
     "Whatever a saved system contains, loading the file reads back exactly "
     "the items that saving wrote: the same items, in the same order, with the "
     "same sizes and repetition counts, each into the member it came from. "
     "Nothing that was read from the file is replaced by another value before "
     "loading returns, and every parameter and every evolved or learned member "
     "of the system and of each kind of condition, action, prediction, rule "
     "and neural layer is among the stored items or follows from them.",
     ['configurations', 'histories'],
     "all parameter settings, all component and layer types, all populations "
     "and network shapes reachable by evolution",
     "the serialisation test compares only the element counts of one default "
     "system; the pickle tests use a few default configurations",
     ['xcsf/xcsf.c', 'xcsf/param.c', 'xcsf/clset.c', 'xcsf/cl.c',
      'xcsf/cond_*.c', 'xcsf/act_*.c', 'xcsf/pred_*.c', 'xcsf/rule_*.c',
      'xcsf/dgp.c', 'xcsf/gp.c', 'xcsf/neural.c', 'xcsf/neural_layer*.c'],
     [('paired save/load routines', 'xcsf_save/xcsf_load and the save/load '
       'slots of every vtable')],
     'static comparison of inlined transfer sequences (LLVM IR effect graphs)',
     "sound for the order, member, byte count and trip count of all fwrite/"
     "fread transfers on all paths; trusts complete transfers and one ABI",
     ['file bytes', 'state after load'])

prop('C02', 'A loaded component is as complete as a newly constructed one',
     "After loading, every member that construction establishes and the "
     "program uses is established too: buffers exist with the same extent, "
     "cleared buffers are cleared, and members that are recomputed instead of "
     "read have the value construction would give them. The same holds for "
     "the whole system, including everything derived from its dimensions and "
     "chosen loss function, and for classifiers created from a JSON document.",
     ['configurations', 'histories'],
     "all component and layer types, all dimensions, also when the loading "
     "system was created with other dimensions than the saved one",
     "tests never continue to use a loaded system with recurrent networks, "
     "multi-output predictions or different dimensions",
     ['xcsf/xcsf.c', 'xcsf/param.c', 'xcsf/pa.c', 'xcsf/cl.c', 'xcsf/gp.c',
      'xcsf/neural_layer_*.c', 'xcsf/pred_*.c', 'xcsf/cond_*.c'],
     [('load routines mirror init routines', 'init and load slots of every '
       'vtable; cl_init/cl_load/cl_json_import; xcsf_init/xcsf_load')],
     'must-write dataflow of load against may-write of init, extents and '
     'recomputed values as polynomials over members',
     "each member and buffer is one obligation; trusts that loops filling a "
     "buffer cover it",
     ['members after load'])

prop('C03', 'Copies are complete and share nothing with their source',
     "A copy of a classifier, component or neural layer has the source's "
     "value in every persistent member and buffer, and owns separate storage "
     "for every buffer and sub-structure, of the same extent. Changing or "
     "freeing either one never affects the other. Working storage that is "
     "recomputed before use, pending weight updates, the RLS gain matrix, and "
     "the memory of recurrent layers may start afresh instead.",
     ['configurations', 'histories'],
     "all component and layer types; parents and offspring, and the stored "
     "population of early stopping, over all evolutionary histories",
     "unit tests copy a few components and compare a few members; sharing "
     "shows only after one of the two is later mutated, trained or freed",
     ['xcsf/cl.c', 'xcsf/cond_*.c', 'xcsf/act_*.c', 'xcsf/pred_*.c',
      'xcsf/rule_*.c', 'xcsf/neural.c', 'xcsf/neural_layer_*.c',
      'xcsf/dgp.c', 'xcsf/gp.c'],
     [('copy routines', 'copy slots of every vtable, cl_init_copy')],
     'reaching definitions at return of copy routines compared with saved and '
     'initialised members',
     "each member is one obligation; the list of working storage is in the "
     "check", ['copy and source after the call'])

prop('C04', 'Owned memory is released exactly once and never used afterwards',
     "Freeing a classifier, component, network, parameter set or system "
     "releases every block that construction, loading or copying attached to "
     "it. No operation releases a block twice or touches it after releasing "
     "it. An operation that gives an object a new block releases the block "
     "that it replaces.",
     ['configurations', 'histories'],
     "all component types and all paths through constructors, operators and "
     "destructors, including deletion, subsumption and population restore",
     "the tests run without leak or memory checking, and use only a few "
     "component types per destructor",
     ['xcsf/cl.c', 'xcsf/clset.c', 'xcsf/ea.c', 'xcsf/xcsf.c',
      'xcsf/param.c', 'xcsf/neural*.c', 'xcsf/cond_*.c', 'xcsf/pred_*.c',
      'xcsf/act_*.c', 'xcsf/dgp.c', 'xcsf/gp.c'],
     [('destructors', 'free slots of every vtable, cl_free, clset_kill, '
       'xcsf_free, param_free')],
     'ownership analysis (allocation homes against must-free) and release '
     'typestate over inlined call graphs',
     "access-path aliases only; helper functions inlined to any depth",
     ['heap'])

prop('C05', 'Temporary files, strings and JSON documents are always released',
     "Every file handle, exported string, JSON document and scratch block "
     "that an operation acquires for its own use is released by the matching "
     "routine, handed to an owner, or returned to the caller on every path on "
     "which the operation returns, including the paths that report an error.",
     ['inputs', 'fault_sequences'],
     "all paths of all operations, including rejected parameters and failed "
     "reads", "tests exercise few error paths and never check for leaks",
     ['xcsf/*.c'],
     [('release before return', 'json export/import, save/load, config and '
       'environment readers, printing')],
     'acquire/release typestate on all paths of inlined entry points',
     "all acquisition sites reachable from each entry point are tracked; "
     "process exit is not a return", ['heap, open files'])

prop('C06', 'Every type name selects its own, complete implementation',
     "Each name of a condition, action, prediction, rule, layer, activation "
     "function or loss function stands for exactly one type: translating it to "
     "the internal code and back gives the same name, only whole names are "
     "accepted, and unknown names are rejected. Wherever a classifier or layer "
     "is created, copied, imported or loaded, the operations that are invoked "
     "are those of the type that was asked for, every operation exists, and "
     "the exported description states the same name.",
     ['configurations', 'inputs'],
     "all type names and all places where implementations are selected",
     "tests create a few types each; a wrong selection for a rarely used type "
     "or on a rarely used path (import, load) is never executed",
     ['xcsf/condition.c', 'xcsf/action.c', 'xcsf/prediction.c',
      'xcsf/loss.c', 'xcsf/neural_layer.c', 'xcsf/neural_activations.c',
      'xcsf/cl.c', 'xcsf/neural.c'],
     [('type tables', 'X_type_as_string/X_type_as_int, X_set, vtables')],
     'conditional constant propagation of every name and code through '
     'translators, selectors and constructors',
     "exhaustive over names and codes; string comparison semantics of "
     "strncmp/strcmp are modelled exactly for constant strings",
     ['type of the created object'])

prop('C07', 'Exported parameters are exactly those that can be set',
     "Every parameter that a system exports as JSON (get_params, printing) "
     "can be imported again under the same key and sets the same parameter to "
     "the same value, for every type of condition, action, prediction and "
     "layer; numbers keep their fractions and true stays true. Everything that "
     "can be set is exported for the types that use it, and every parameter "
     "that is stored with a system is exported. Unknown or misspelt keys and "
     "values of the wrong kind are rejected; they never set a parameter and "
     "are never skipped silently.",
     ['inputs', 'configurations'],
     "all keys, all types, all values",
     "the tests round-trip a few default configurations; most keys of most "
     "types are never exported and imported again",
     ['xcsf/param.c', 'xcsf/ea.c', 'xcsf/condition.c', 'xcsf/action.c',
      'xcsf/prediction.c', 'xcsf/neural_layer_args.c', 'xcsf/cond_*.c',
      'xcsf/act_*.c', 'xcsf/pred_*.c'],
     [('paired export and import', 'param_json_export/param_json_import')],
     'constant propagation of every exported key through the inlined importer',
     "exhaustive over keys and types; the value range of numbers is C08's "
     "subject", ['parameters after import'])

prop('C08', 'Invalid settings are reported and never take effect',
     "A parameter value outside its range (probabilities and rates in [0,1], "
     "sizes, counts and dimensions at least 1, thresholds and errors at least "
     "0, at least two offspring, 1 to 1000 threads) and an unknown type name "
     "never changes the system, however it is supplied; the attempt is "
     "reported, and every value inside the range, limits included, is "
     "accepted. The stated ranges are the enforced ones. Arguments of a "
     "condition or prediction type (eta, bits, tree and graph sizes) are "
     "limited instead: a value outside the range is reported and replaced by "
     "the nearest limit, never stored. Files of another "
     "version are refused before anything of the system is replaced.",
     ['inputs'], "all parameters, values at and around every limit, all names",
     "the tests set a few invalid values of a few parameters",
     ['xcsf/param.c', 'xcsf/ea.c', 'xcsf/action.c', 'xcsf/condition.c',
      'xcsf/prediction.c', 'xcsf/xcsf.c'],
     [('range checks', 'param_set_*, ea_param_set_*, catch_error')],
     'constant propagation of boundary values through setters and importer',
     "decided at and next to each limit and far from it; comparisons between "
     "these points are assumed monotone", ['parameters', 'error reports'])

prop('C09', 'The population counters are exact',
     "After every operation on the system (a trial, covering, the "
     "evolutionary algorithm, subsumption, deletion, population import, "
     "storing, retrieving and loading) the numerosity counter of the "
     "population equals the sum of its classifiers' numerosities and the size "
     "counter equals the number of its list nodes. A classifier whose "
     "numerosity reaches zero leaves the population list and is handed to the "
     "kill set, and only such a classifier is removed. Adding to a set, "
     "validating, clearing and freeing it keep that set's counters exact.",
     ['histories', 'configurations'],
     "all sequences of trials, all subsumption and deletion outcomes, all "
     "branches of every operation",
     "tests check the counters after a few fixed operations; drift needs a "
     "particular subsumption or deletion outcome",
     ['xcsf/clset.c', 'xcsf/ea.c', 'xcsf/cl.c', 'xcsf/xcsf.c',
      'xcsf/xcs_rl.c', 'xcsf/xcs_supervised.c'],
     [('set counters', 'clset_add, clset_validate, clset_init, clset_free, '
       'clset_kill, clset_pset_enforce_limit, clset_update, ea')],
     'path-sensitive property simulation (ESP) with linear accounting of '
     'counter and numerosity changes',
     "each operation is shown neutral on every path, loops included; relies "
     "on a classifier occurring once in the population list",
     ['pset.num', 'pset.size', 'list'])

prop('C10', 'The population never exceeds its limit',
     "Every operation that can add classifiers or raise numerosities "
     "(covering, the evolutionary algorithm, random initialisation, JSON "
     "insertion, any trial) returns with a population whose total numerosity "
     "is at most the configured maximum, provided it was within the limit "
     "before; classifiers are deleted only while the population is above the "
     "limit.",
     ['histories', 'configurations'],
     "all trials, offspring counts, subsumption settings, limits and imported "
     "populations",
     "tests check the limit after one or two insertions; an omitted "
     "enforcement on one branch needs a full population and that branch",
     ['xcsf/clset.c', 'xcsf/ea.c', 'xcsf/xcs_rl.c', 'xcsf/xcs_supervised.c'],
     [('limit enforcement', 'clset_pset_enforce_limit after each insertion')],
     'path-sensitive typestate (below / at / above / unknown) of pset.num '
     'against POP_SIZE, with branch refinement',
     "all paths of all operations; loading a saved population is taken to "
     "restore a population within its saved limit",
     ['pset.num'])

prop('C11', 'Sets of a trial are set up, validated and released in order',
     "In every trial, supervised or reinforcement, run at once or step by "
     "step, the match, action, previous action and kill sets are initialised "
     "before use and released exactly once. After classifiers were removed "
     "from the population, no classifier of a set is updated, selected as a "
     "parent or credited as a subsumer until that set has been validated, and "
     "no classifier is read after the kill set that may hold it was "
     "destroyed.",
     ['histories', 'configurations'],
     "all trials and step sequences of the documented protocol, all outcomes "
     "of covering, subsumption and deletion",
     "a dangling or stale set needs a deletion of a particular classifier "
     "between two steps",
     ['xcsf/xcs_rl.c', 'xcsf/xcs_supervised.c', 'xcsf/clset.c', 'xcsf/ea.c'],
     [('set lifecycle', 'xcs_rl_init_trial ... xcs_rl_end_trial, '
       'xcs_supervised_trial, clset_validate, clset_kill')],
     'interprocedural typestate of the four trial sets with path-sensitive '
     'property simulation; composition over the step-wise protocol',
     "all paths, functions inlined; step-wise calls are taken in the "
     "documented order",
     ['mset', 'aset', 'prev_aset', 'kset'])

prop('C12', 'Predicting, scoring and reporting do not change what was learned',
     "Prediction and scoring never learn: whatever the population, they run "
     "with exploration off, reach no update, mutation or crossover, change no "
     "classifier's error, fitness, numerosity, experience, size or time stamp "
     "and no stored parameter or clock of the system, and when a cover value "
     "is given they leave the population as it is and draw no random numbers. "
     "Matching and computing never write a member that learning or evolution "
     "maintains, and are deterministic when not training. Saving, exporting, "
     "printing and size or generality queries only read.",
     ['inputs', 'configurations', 'histories'],
     "all inputs, populations, component and layer types",
     "tests compare a few predictions; a hidden write on an unusual input or "
     "layer type changes later behaviour only",
     ['xcsf/xcs_supervised.c', 'xcsf/clset.c', 'xcsf/cl.c', 'xcsf/cond_*.c',
      'xcsf/pred_*.c', 'xcsf/act_*.c', 'xcsf/neural*.c', 'xcsf/param.c'],
     [('evaluation path', 'xcs_supervised_predict/score/score_n, clset_match, '
       'pa_build, match/compute/forward slots')],
     'effect analysis over inlined graphs with conditional constant '
     'propagation of the exploration and training flags',
     "learned members are derived from what the update, mutate and crossover "
     "slots write; internal activation state of recurrent layers is not "
     "counted as learned",
     ['population', 'parameters', 'random sequence'])

prop('C13', 'Parallel iterations are independent of one another',
     "Wherever the system matches, predicts or updates classifiers in "
     "parallel, every iteration writes only its own classifier: no iteration "
     "writes the system, a set, the input, a global or static variable, or "
     "another classifier, directly or through any condition, action, "
     "prediction, layer or loss implementation it dispatches to, and none "
     "reads a classifier that another iteration may be writing. There is no "
     "data race and the outcome does not depend on the number of threads or "
     "the schedule.",
     ['schedules', 'configurations'],
     "all schedules and thread counts, all component and layer types",
     "a race shows only under particular interleavings and may leave test "
     "expectations intact",
     ['xcsf/clset.c', 'xcsf/pa.c', 'xcsf/cl.c', 'xcsf/cond_*.c',
      'xcsf/pred_*.c', 'xcsf/act_*.c', 'xcsf/neural*.c'],
     [('parallel loops', 'clset_match, clset_update, pa_build and everything '
       'they dispatch to')],
     'effect/ownership analysis of the outlined OpenMP bodies with '
     'per-argument write summaries of every dispatched implementation',
     "lists of a set hold distinct classifiers (C09/C11) and classifiers own "
     "their components exclusively (C03/C04)",
     ['classifiers', 'sets', 'global state'])

prop('C14', 'A fixed seed determines every result',
     "With a non-negative random_state the same calls give the same results: "
     "the generator is seeded with exactly that value and seeding discards "
     "all earlier generator state; nothing is taken from a clock, the process "
     "or another unseeded source, no process-wide variable other than the "
     "generator carries state between calls or systems, no result depends on "
     "addresses, and no block, member or local is read before it was written.",
     ['histories', 'configurations', 'inputs'],
     "all call sequences and configurations",
     "tests run one system per process with one seed; dependence on earlier "
     "runs, addresses or uninitialised storage does not show there",
     ['xcsf/utils.c', 'xcsf/param.c', 'xcsf/*.c'],
     [('randomness', 'rand_init_seed, param_set_random_state, rand_*'),
      ('initialisation', 'param_init, cl_init, all public functions')],
     'call-graph and effect analysis of randomness sources and global state; '
     'must-write dataflow for storage created in an operation; conditional '
     'constant propagation of the seed',
     "arrays filled in a loop count as written when the loop runs; "
     "instruction-level floating-point differences between builds are out of "
     "scope",
     ['random numbers', 'initial state'])

prop('C15', 'Mutation and crossover report every alteration',
     "Whenever mutation or crossover of any condition, action, prediction or "
     "network layer alters the classifier, the operation returns true, for "
     "every configuration and outcome of the random draws, and the flag is "
     "passed on unchanged through network, classifier and evolutionary "
     "algorithm: an offspring reported as unaltered is identical to its "
     "parent (apart from the self-adaptive rates themselves).",
     ['configurations', 'histories'],
     "all component and layer types, options and random outcomes",
     "an unreported alteration makes the evolutionary algorithm discard a new "
     "rule as a copy of its parent; tests only check that flags come back "
     "true",
     ['xcsf/cond_*.c', 'xcsf/act_*.c', 'xcsf/pred_*.c', 'xcsf/rule_*.c',
      'xcsf/neural*.c', 'xcsf/gp.c', 'xcsf/dgp.c', 'xcsf/cl.c'],
     [('alteration flags', 'every mutate and crossover slot, cl_mutate, '
       'cl_crossover')],
     'path-sensitive property simulation with per-address change tracking '
     'and compositional flag summaries of helpers',
     "derived counters (n_active) are not alterations; nested operations are "
     "decided at their own slots",
     ['conditions', 'actions', 'predictions', 'layers'])

prop('C16', 'Evolved and learned values stay inside their permitted range',
     "However long a system evolves and learns, for every outcome of the "
     "random draws: weights and biases of neural layers stay within "
     "[-10, 10], gradient descent rates within their configured minimum and "
     "maximum, self-adaptive mutation rates within (0, 1], the numbers of "
     "neurons and filters of a layer between one and the configured maximum, "
     "mutated interval bounds and centres within the condition's minimum and "
     "maximum (spreads stay positive), node functions, activation functions "
     "and connections of dynamical GP graphs valid, graph states within "
     "[0, 1] and update cycles within [1, maximum]; point mutation keeps the "
     "shape of GP trees; every action that a classifier holds, imports or "
     "computes is at least zero and below the number of actions; and a "
     "disabled connection of a layer has weight zero.",
     ['histories', 'configurations', 'inputs'],
     "all sequences of mutation, crossover, training and resizing, all "
     "configurations, all random outcomes",
     "a value leaves its range only after many lucky draws or updates; tests "
     "apply a few operations to small components",
     ['xcsf/sam.c', 'xcsf/neural_layer.c', 'xcsf/neural_layer_*.c',
      'xcsf/pred_nlms.c', 'xcsf/act_*.c', 'xcsf/rule_*.c', 'xcsf/dgp.c',
      'xcsf/gp.c', 'xcsf/cond_rectangle.c', 'xcsf/cond_ellipsoid.c',
      'xcsf/utils.h'],
     [('limits', 'clamp, sam_adapt, layer_mutate_*, layer_weight_clamp, '
       'graph_mutate, tree_mutate, mutate/update/resize/compute slots')],
     'interval proof of the last stored value of every ranged member: forward '
     'dataflow of unproven addresses with a symbolic inequality prover '
     '(branch facts, phi induction, memory versions)',
     "inductive: values in range before an operation are in range after it; "
     "a normal variate is taken to lie within nine standard deviations; "
     "configured limits are assumed ordered (C08)",
     ['members of classifiers', 'actions'])

GVG = ('comparison of gated value graphs (global value numbering with '
       'algebraic normalisation, loops as recurrences, calls as '
       'uninterpreted effects) with reference definitions; graphs that '
       'differ are told apart by abstract random interpretation')
GVN = ("arithmetic is over the reals, callees outside the compared function "
       "are uninterpreted, distinct classifiers do not share storage; a "
       "function whose value graph cannot be built is reported as undecided "
       "and raises no alarm")

prop('C17', 'Classifiers are updated by the XCS learning rules',
     "For every classifier, parameter setting and history: a new classifier "
     "starts with the configured fitness and error, numerosity one and no "
     "experience; each update raises experience by one and moves error and "
     "set size estimates by the moyenne adaptive modifiee rule (plain mean "
     "until experience exceeds 1/BETA, then rate BETA) towards the loss of "
     "the prediction and the numerosity of the set; accuracy is one within "
     "E0 and the clipped power law outside; fitness moves by BETA towards "
     "the classifier's numerosity-weighted share of the accuracy of the set; "
     "the deletion vote is size times numerosity, raised for experienced "
     "classifiers of low fitness; subsumption needs experience above "
     "THETA_SUB and error below E0; match counts, age and match fraction "
     "count what they say; mutation and crossover apply to condition, "
     "prediction and action; and set statistics (total fitness, mean time "
     "stamp, mean sizes, match fraction of the most general accurate rule) "
     "are those sums and means over the whole set.",
     ['inputs', 'histories', 'configurations'],
     "all classifiers, sets, losses and parameter values",
     "tests evaluate these rules on one or two hand-computed examples, which "
     "do not separate many wrong formulas or boundary conditions",
     ['xcsf/cl.c', 'xcsf/clset.c', 'xcsf/cl.h'],
     [('update rules', 'cl_init, cl_update, cl_acc, cl_update_fit, '
       'cl_del_vote, cl_subsumer, cl_match, cl_mutate, clset_update, '
       'clset_mean_time and the other set statistics')],
     GVG, GVN, ['classifier members', 'set statistics'])

prop('C19', 'Predictions, action choice, losses and training follow XCSF',
     "For every match set the system prediction of each action and output is "
     "the fitness-weighted mean of the predictions of the classifiers that "
     "advocate that action (zero if there is none); the best action is one "
     "of the actions of maximal prediction, chosen uniformly, and a random "
     "action is one that is advocated; exploration happens with probability "
     "P_EXPLORE while exploring. The match set holds exactly the matching "
     "classifiers of the population and the action set those of the match "
     "set that advocate the action. Reinforcement updates the previous "
     "action set with the previous reward plus GAMMA times the best current "
     "prediction on the previous state and, in a terminal state, the current "
     "action set with the reward, running the evolutionary algorithm on each "
     "only while exploring; supervised training presents the samples in "
     "order (or at random when shuffling), learns from training samples "
     "only, and returns the mean training loss; predicting and scoring do "
     "not learn, use the cover value only when nothing matches, and score "
     "the mean over the samples. Every loss function is its mathematical "
     "definition for all predictions and targets.",
     ['inputs', 'histories', 'configurations'],
     "all populations, match sets, data sets, rewards and parameter values",
     "tests run short experiments with fixed seeds and compare a few numbers",
     ['xcsf/pa.c', 'xcsf/xcs_rl.c', 'xcsf/xcs_supervised.c', 'xcsf/loss.c',
      'xcsf/clset.c'],
     [('prediction and training', 'pa_*, xcs_rl_*, xcs_supervised_*, loss_*, '
       'clset_match, clset_action')],
     GVG, GVN, ['prediction array', 'calls made during a trial'])

prop('C21', 'Matching, covering and variation mean what they say',
     "For every input a hyperrectangle (centre-spread or bounds) matches "
     "exactly the inputs within its bounds (inclusive), a hyperellipsoid those "
     "whose weighted squared distance from the centre is below one, a "
     "ternary condition those whose binarised features agree with every "
     "symbol that is not #, and tree, graph and neural conditions those "
     "their output is above one half for; one condition is more general "
     "than another only when it contains it. Covering yields a condition "
     "that matches the covered input and, where the condition and action "
     "share one network or graph, an action equal to the one asked for. "
     "Conditions move towards matched inputs by the learning rate; uniform "
     "crossover exchanges whole genes between two parents with probability "
     "one half per gene, losing none; mutation adds a normal deviate scaled "
     "by the self-adapted rate to every gene, keeps it within the limits "
     "and reports whether anything changed. Actions are the advocated "
     "integer, or the index of the largest network output.",
     ['inputs', 'histories', 'configurations'],
     "all conditions, actions, inputs, parameter values and random draws",
     "tests match a few hand-made conditions against a few inputs and never "
     "check the distribution or the effect of variation",
     ['xcsf/cond_rectangle.c', 'xcsf/cond_ellipsoid.c', 'xcsf/cond_ternary.c',
      'xcsf/cond_gp.c', 'xcsf/cond_dgp.c', 'xcsf/cond_neural.c',
      'xcsf/rule_dgp.c', 'xcsf/rule_neural.c', 'xcsf/act_integer.c',
      'xcsf/act_neural.c', 'xcsf/cl.c'],
     [('conditions and actions', 'cond_*_match, cond_*_general, cond_*_cover, '
       'cond_*_update, cond_*_crossover, cond_*_mutate, rule_*_cond_match, '
       'rule_*_act_*, act_*_compute, act_*_cover, cl_cover')],
     GVG, GVN, ['gene values', 'match results'])

prop('C20', 'Predictions, self-adaptation and linear algebra compute their '
     'definitions',
     "For every input a constant prediction moves to the running average of "
     "the targets while its experience is small and afterwards by the "
     "learning rate; a linear or quadratic prediction is the inner product "
     "of its weights with the constant offset, the inputs and (quadratic) "
     "all their products; NLMS changes each weight by the learning rate "
     "times the error over the squared norm of the input; RLS follows the "
     "recursive least squares recurrence with the forgetting rate and the "
     "configured initial gain matrix; a neural prediction copies the "
     "network's outputs. Evolved learning rates stay within their limits. "
     "Self-adaptive mutation rates follow their log-normal, rate-table or "
     "uniform rule and stay within [epsilon, 1]. The matrix and vector "
     "routines compute C := alpha op(A) op(B) + beta C and the usual strided "
     "vector operations.",
     ['inputs', 'histories', 'configurations'],
     "all inputs, targets, weights, dimensions, strides, parameter values "
     "and random draws",
     "tests run one prediction for a few steps against recorded numbers, "
     "with one shape of matrix each",
     ['xcsf/pred_constant.c', 'xcsf/pred_nlms.c', 'xcsf/pred_rls.c',
      'xcsf/pred_neural.c', 'xcsf/prediction.c', 'xcsf/sam.c', 'xcsf/blas.c'],
     [('predictions', 'pred_*_compute, pred_*_update, pred_*_init, '
       'pred_*_mutate, pred_transform_input'),
      ('support', 'sam_adapt, sam_init, blas_*')],
     GVG, GVN, ['weights', 'predictions', 'mutation rates'])

prop('C22', 'Neural networks compute, back-propagate and vary as defined',
     "For every network and input each activation function and its "
     "derivative is the documented one, applied to the clamped weighted sum; "
     "fully-connected and convolutional layers compute weights times input "
     "plus biases, pass the error through the derivative of their own "
     "activation (whether or not their own weights are trained), accumulate "
     "the weight and bias gradients only when trained by gradient descent, "
     "and update with learning rate, momentum and decay, keeping weights in "
     "their range and inactive weights zero; pooling, up-sampling, softmax, "
     "dropout and noise layers compute theirs and route errors back to where "
     "the value came from; recurrent layers add the previous state's "
     "contribution, LSTM layers apply their four gates. A network propagates "
     "layer by layer from the input, learns from target minus output, and "
     "reports the last layer's outputs. Mutation and resizing keep weights "
     "within limits, keep every surviving connection, give new connections "
     "small random values and report whether anything changed.",
     ['inputs', 'histories', 'configurations'],
     "all layer shapes, weights, inputs, targets, options and random draws",
     "tests propagate recorded inputs through a few small networks of fixed "
     "shape and options",
     ['xcsf/neural.c', 'xcsf/neural_layer.c', 'xcsf/neural_activations.c',
      'xcsf/neural_layer_connected.c', 'xcsf/neural_layer_convolutional.c',
      'xcsf/neural_layer_recurrent.c', 'xcsf/neural_layer_lstm.c',
      'xcsf/neural_layer_avgpool.c', 'xcsf/neural_layer_maxpool.c',
      'xcsf/neural_layer_softmax.c', 'xcsf/neural_layer_dropout.c',
      'xcsf/neural_layer_noise.c', 'xcsf/neural_layer_upsample.c',
      'xcsf/image.c'],
     [('layers', 'neural_layer_*_forward, neural_layer_*_backward, '
       'neural_layer_*_update, layer_*'),
      ('network', 'neural_propagate, neural_learn, neural_resize, '
       'neural_rand, neural_output')],
     GVG, GVN, ['layer outputs', 'deltas', 'weights'])
prop('C23', 'Selection, offspring insertion, subsumption and deletion follow XCS',
     "For every population and random draw: the evolutionary algorithm runs "
     "only when the mean time since its last run in the set reaches theta; it "
     "stamps the set, selects two parents by fitness-proportionate or "
     "tournament selection over the whole set, makes lambda offspring as "
     "copies that are crossed over and mutated, gives them the parents' "
     "reduced error and per-copy fitness (averaged if crossed over), counts "
     "an unaltered offspring as another copy of its own parent, and otherwise "
     "inserts it or, with subsumption on, lets the first parent, else the "
     "second, else a random more general accurate member of the set absorb "
     "it. Set subsumption gives all copies of every more specific member to "
     "the most general subsumer. Deletion takes one copy of the first rule "
     "that never matched during its probation, else of one drawn in "
     "proportion to its deletion vote (the larger of two when compacting), "
     "and unlinks a rule exactly when its last copy goes. Set operations "
     "(create, add, validate, free) keep every other member, in order.",
     ['inputs', 'histories', 'configurations'],
     "all sets, fitnesses, numerosities, votes, parameters and draws; for "
     "validation and set subsumption all sets of up to three members, for "
     "the offspring loop lambda up to three",
     "tests run the algorithm on whole problems and compare one error value, "
     "or add and delete one or two hand-made classifiers",
     ['xcsf/ea.c', 'xcsf/clset.c'],
     [('the evolutionary algorithm', 'ea, ea_add, ea_subsume, '
       'ea_init_offspring, ea_select_rw, ea_select_tournament'),
      ('sets', 'clset_add, clset_validate, clset_free, clset_kill, '
       'clset_subsumption, clset_action_coverage'),
      ('deletion', 'clset_pset_enforce_limit, clset_pset_del, '
       'clset_pset_roulette, clset_pset_never_match')],
     GVG, GVN, ['population', 'offspring', 'deleted classifiers'])

prop('C24', 'GP trees, dynamical graphs and environments behave as defined',
     "A GP tree is evaluated in prefix order with the four arithmetic "
     "functions (division by zero gives the numerator), every argument "
     "bounded to [-1000, 1000], constants and inputs picked by their index; "
     "growing keeps to the length and depth limits and never makes a lone "
     "terminal except at depth 0; crossover exchanges one whole sub-tree for "
     "another; mutation replaces functions by functions and terminals by "
     "terminals. A dynamical graph updates all nodes from the states of the "
     "previous cycle, for its own number of cycles, with fuzzy not, and, or "
     "limited to [0, 1], reads inputs and nodes as its connections say, "
     "resets to the initial states when asked, and mutates functions, "
     "connections and cycles at their own rates within their limits. The "
     "multiplexer pays one for the addressed bit; the maze is toroidal, "
     "senses its eight neighbours, moves only to free or food cells, pays "
     "and ends only at food.",
     ['inputs', 'configurations'],
     "all trees, graphs, inputs, parameters and draws; for the node update "
     "graphs of one or two connections per node",
     "tests evaluate one or two fixed trees and graphs; no test looks at the "
     "environments",
     ['xcsf/gp.c', 'xcsf/dgp.c', 'xcsf/env_mux.c', 'xcsf/env_maze.c'],
     [('trees', 'tree_eval, tree_grow, tree_crossover, tree_mutate'),
      ('graphs', 'graph_update, graph_reset, graph_rand, graph_mutate'),
      ('environments', 'env_mux_execute, env_maze_get_state, '
       'env_maze_execute, env_maze_reset')],
     GVG, GVN, ['evaluated values', 'tree and graph contents', 'rewards'])
