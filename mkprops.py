#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}})

p("C01","Results do not depend on thread scheduling or on the number of threads",
  "For a fixed random seed, configuration, data and sequence of calls, every returned value, the learned population, and every saved or exported file are bit-for-bit the same for every interleaving of the parallel workers and for every number of worker threads, including one. This covers matching, prediction, scoring, supervised and reinforcement learning with every kind of condition, prediction and action, including networks with stochastic layers.",
  ["schedules","configurations","histories"],"all interleavings of the worker threads inside each parallel phase, team sizes 1..8, all rule representations, all call histories",
  "The unit tests run one uncontrolled schedule per machine with tiny populations; a shared scratch buffer or an order-dependent reduction only shows under particular interleavings.",
  ["xcsf/clset.c","xcsf/pa.c","xcsf/cl.c","xcsf/neural.c","xcsf/utils.c"],
  [("match flags computed in parallel, match set list built in series","clset.c:clset_match"),("predictions computed in parallel, prediction array summed in series for determinism","pa.c:pa_build"),("per-rule update in parallel, fitness update and subsumption in series","clset.c:clset_update"),("random numbers drawn outside the parallel phases","clset.c, ea.c")],
  ["return values of predict/score/fit/decision","bytes of saved files","population JSON"])
p("C02","Parallel workers never race",
  "While rules are matched, evaluated and updated in parallel, no memory location is accessed by two workers without synchronisation between the accesses when at least one of them writes it. This includes the shared random number generator.",
  ["schedules","configurations","inputs"],"all pairs of worker accesses in every parallel phase, for all rule representations, team sizes and reachable populations",
  "No test runs under a race detector, and the default static partition hides most conflicts.",
  ["xcsf/clset.c","xcsf/pa.c","xcsf/neural_layer_dropout.c","xcsf/neural_layer_noise.c","xcsf/dgp.c","xcsf/pred_nlms.c","xcsf/pred_rls.c"],
  [("each worker touches only its own rule","clset.c:clset_match, clset_update; pa.c:pa_build"),("per-rule scratch buffers","pred_nlms.c tmp_input, dgp.c tmp_input, neural layers")],
  ["memory accesses of the workers inside the parallel phases"])
p("C03","A seeded run is reproducible",
  "Two runs given the same non-negative random seed, configuration, data and sequence of calls produce identical results. The results do not depend on the wall-clock time, on the order in which parameters are listed, on what the process did before with other models or random draws, or on the contents and placement of freshly allocated memory.",
  ["histories","configurations","inputs"],"all earlier process histories, all clock readings, all heap contents and layouts, all parameter orders",
  "The Python test repeats one hyperrectangle configuration in one process; hidden state outside the generator and uninitialised reads need other histories and memory contents to show.",
  ["xcsf/utils.c","xcsf/param.c","xcsf/gp.c","xcsf/condition.c","xcsf/sam.c"],
  [("seeding of the global generator","utils.c:rand_init_seed, param.c:param_set_random_state"),("cached second normal deviate","utils.c:rand_normal"),("constants drawn when tree parameters are set","gp.c:tree_args_init_constants")],
  ["return values","saved bytes"])
p("C04","A saved model is the same model after loading, and resumes identically",
  "Loading a saved model in a new process, or over any existing model, gives a model with the same parameters, statistics and population (same rules in the same order with the same values) as when it was saved. Given the same random seed and inputs, the loaded model then predicts, learns, evolves and saves exactly as the original would have, for every rule representation, number of outputs and number of actions.",
  ["crash_points","histories","configurations"],"all histories before the save, a process kill at any point after the save returned, all models already present in the loading instance, all histories after it",
  "The tests pickle only after a short run with one output and one action and compare single predictions; a field that is not saved or a buffer that is not resized shows only in later learning or with other dimensions.",
  ["xcsf/xcsf.c","xcsf/param.c","xcsf/clset.c","xcsf/cl.c","xcsf/condition.c","xcsf/prediction.c","xcsf/action.c","xcsf/neural.c","xcsf/gp.c","xcsf/dgp.c","xcsf/rule_dgp.c","xcsf/rule_neural.c"],
  [("binary save/load","xcsf.c:xcsf_save/xcsf_load, param.c:param_save/param_load, cl.c:cl_save/cl_load"),("list order restored on load","clset.c:clset_pset_reverse")],
  ["parameters, population and statistics after load","outputs of the continuation"])
p("C05","A save that reports success is complete, and a bad read is never silent",
  "If saving a model or writing the population as JSON returns normally, everything written is in the file: it survives a kill of the process right afterwards and loads back to the same model. If the disk fills up, a write, flush or close fails, or the file cannot be opened, the call does not return as if it had succeeded. Loading a model file that is truncated or hits a read error fails visibly instead of returning a silently different model.",
  ["fault_sequences","crash_points"],"every position of a full disk, write error, close error, read error or truncation in the stream, and short reads and writes anywhere",
  "Tests only use a working disk.",
  ["xcsf/xcsf.c","xcsf/pybind_wrapper.cpp","xcsf/param.c","xcsf/clset.c"],
  [("stream opened, written and closed","xcsf.c:xcsf_save"),("stream read","xcsf.c:xcsf_load"),("JSON stream","pybind_wrapper.cpp:json_write")],
  ["return or exit of save/load","file bytes on the simulated disk"])
p("C06","The population stays well formed and numerosity is conserved",
  "After every call, the population's recorded number of rules and total numerosity equal what is actually in it, the total numerosity never exceeds the configured maximum, every rule has numerosity at least one, and no rule appears twice. A trial changes the total numerosity only by covering (one per rule created), by reproduction (one per offspring, whether inserted or absorbed by a parent or subsumer) and by deletion of exactly the excess over the maximum; subsumption conserves it. No call leaves a rule reachable after it was removed, and every rule's matched count never exceeds its seen count.",
  ["histories","configurations","inputs"],"all sequences of fit, predict, score, reinforcement learning steps, store, retrieve, load, JSON insertion, with all evolutionary settings",
  "Tests check sizes after a handful of fixed operations; accounting errors need particular sequences of covering, subsumption and deletion.",
  ["xcsf/clset.c","xcsf/ea.c","xcsf/xcsf.c","xcsf/xcs_rl.c"],
  [("size and num counters","clset.c:clset_add, clset_pset_del, clset_validate"),("offspring accounting","ea.c:ea_add, ea_subsume"),("limit","clset.c:clset_pset_enforce_limit")],
  ["population after each call"])
p("C07","Predictions are the fitness-weighted vote of the matching rules; covering works",
  "For every input the prediction for each action and output is the fitness-weighted mean of the predictions of exactly the rules that match the input and advocate the action, and zero when there is none. When learning or deciding, covering ensures that every action is advocated by at least one matching rule, adding rules only for missing actions; predict and score never add rules and return the caller's substitute values (zeros by default) for inputs no rule matches. Exploitation picks an action with the highest prediction, and exploration picks only an advocated action.",
  ["histories","inputs","configurations","schedules"],"all populations reachable by any history, all inputs, all rule representations",
  "Unit tests build one hand-made match set.",
  ["xcsf/pa.c","xcsf/clset.c","xcsf/xcs_supervised.c","xcsf/xcs_rl.c","xcsf/pybind_wrapper.cpp"],
  [("prediction array","pa.c:pa_build, pa_best_action, pa_rand_action"),("match and cover","clset.c:clset_match, clset_cover"),("substitute values","xcs_supervised.c:xcs_supervised_trial, pybind_wrapper.cpp:set_cover")],
  ["prediction array after each call","returned action"])
p("C08","Credit goes exactly to the rules that earned it, by the documented update rules",
  "A supervised learning trial updates exactly the matching rules; a reinforcement step updates exactly the rules of the previous step that advocated the action then taken, towards the previous reward plus the discounted best current prediction for the previous state, and in a terminal state also the rules advocating the current action towards the final reward. Each updated rule's experience grows by one, its error and set size move to the running mean for the first 1/beta updates and by the learning rate afterwards, its fitness moves by the learning rate towards its numerosity-weighted share of relative accuracy, and its own learners are updated once with that target. All other rules keep all learned values, and the running system error moves by the learning rate towards the reported error.",
  ["histories","inputs","configurations"],"all histories of supervised trials and multi-step episodes, including rules deleted or subsumed between steps",
  "Unit tests update single rules; nothing tests multi-step credit assignment or that unrelated rules stay unchanged.",
  ["xcsf/cl.c","xcsf/clset.c","xcsf/xcs_supervised.c","xcsf/xcs_rl.c"],
  [("set update","clset.c:clset_update, clset_update_fit"),("rule update","cl.c:cl_update, cl_update_fit, cl_acc"),("episode bookkeeping","xcs_rl.c:xcs_rl_update, xcs_rl_end_step")],
  ["rules before and after each trial or step"])
p("C09","Evolution runs exactly when due and reproduces only from the current set",
  "The evolutionary algorithm runs only while exploring, and in a learning step exactly when the numerosity-weighted mean time since it last ran in that set reaches the configured threshold; evaluation and exploitation never evolve rules. Offspring start with no experience and with error and fitness derived from two members of that set, reduced by the configured factors, and an offspring is absorbed instead of inserted exactly when doing so is enabled and an experienced, accurate and more general rule is there to absorb it. Rules are removed only to enforce the population limit or by subsumption by an experienced, accurate and more general rule, and rules past their probation without a single match are removed first.",
  ["histories","configurations"],"all histories and evolutionary settings",
  "No test runs the evolutionary algorithm inside a learning history and inspects the offspring.",
  ["xcsf/ea.c","xcsf/clset.c","xcsf/xcs_supervised.c","xcsf/xcs_rl.c","xcsf/cl.c"],
  [("EA trigger and reproduction","ea.c:ea"),("offspring parameters","ea.c:ea_init_offspring"),("deletion","clset.c:clset_pset_del"),("set subsumption","clset.c:clset_subsumption")],
  ["population before and after each trial or step"])
p("C10","Store/retrieve, early stopping and checkpoints give back exactly the right model",
  "Retrieving a stored population restores exactly the population that was stored (same rules, order and values), whatever happened in between, and storing never changes the model or later random behaviour. Early stopping stops at the first epoch where the monitored error has not improved by more than the minimum change for longer than the patience, and when asked to restores exactly the best population it saw; a checkpoint file holds exactly the model of the epoch at which it was due, and best-only checkpoints keep the best epoch.",
  ["histories","configurations"],"all sequences of epochs, monitored error sequences, patience, frequency and restore settings, all rule representations",
  "Tests never use callbacks, store or retrieve.",
  ["xcsf/xcsf.c","xcsf/cl.c","xcsf/pybind_callback_earlystop.h","xcsf/pybind_callback_checkpoint.h","xcsf/pybind_wrapper.cpp"],
  [("population copy","xcsf.c:xcsf_store_pset, xcsf_retrieve_pset; cl.c:cl_init_copy"),("callbacks","pybind_callback_earlystop.h, pybind_callback_checkpoint.h")],
  ["population after retrieve / fit","checkpoint files"])
p("C11","Pickling yields the same model, even with other processes in the directory",
  "Unpickling a pickled model gives a model that is equal to the original and continues identically under the same seed. This holds for every rule representation and dimension while other processes pickle, unpickle or save models in the same working directory at the same time; if a file operation fails or the directory is not writable the call raises or fails visibly instead of giving a wrong model, and no files are left behind.",
  ["schedules","fault_sequences","histories"],"all interleavings of the file operations of concurrent processes, all I/O faults during pickling, all models",
  "The test pickles in one process on a working disk.",
  ["xcsf/pybind_wrapper.cpp","xcsf/xcsf.c"],
  [("pickling through a temporary file","pybind_wrapper.cpp:serialize, deserialize")],
  ["unpickled model","files in the directory"])
p("C12","Models in one process are independent",
  "Creating, training, evaluating, saving, loading, reseeding or destroying one model never changes another model in the same process: its parameters, statistics, population, stored population and predictions stay exactly as they were. Arrays passed in by the caller are never modified or kept in use after the call that received them.",
  ["histories","schedules"],"all interleavings of calls on several models and all lifetimes and later modifications of the caller's arrays",
  "Tests hold one model at a time and keep all arrays alive.",
  ["xcsf/xcsf.c","xcsf/param.c","xcsf/pybind_wrapper.cpp","xcsf/utils.c"],
  [("no global state but the random generator and thread count","utils.c, param.c"),("arrays passed by pointer","pybind_wrapper.cpp:load_input, decision, set_cover")],
  ["state of the untouched model","contents of the caller's arrays"])
p("C13","No history corrupts or leaks memory, or leaks file handles",
  "No sequence of valid calls on valid models reads or writes outside allocated memory, uses freed memory, or frees twice; after a model is destroyed all the memory it allocated has been released. Every file opened by a call is closed when the call returns.",
  ["histories","configurations","inputs"],"all call histories over all rule representations and dimensions, including load over an existing model, store/retrieve, JSON insertion, layer growth and autoencoder conversion",
  "Tests run without sanitizers on short fixed histories.",
  ["xcsf/xcsf.c","xcsf/clset.c","xcsf/cl.c","xcsf/neural.c","xcsf/neural_layer.c","xcsf/gp.c","xcsf/dgp.c","xcsf/xcs_rl.c","xcsf/pa.c"],
  [("kill set frees removed rules at the end of a trial","clset.c:clset_kill, xcs_rl.c:xcs_rl_end_trial"),("free functions of every representation","cl.c:cl_free, param.c:param_free")],
  ["allocator and file seams","address sanitizer"])
p("C14","Built-in problems and the command line program run faithful episodes",
  "In the built-in maze and multiplexer problems every episode ends exactly when the goal is reached or the step limit is hit, the agent is never inside an obstacle or outside the maze and moves exactly as commanded, and the maximum payoff is given exactly at the goal and nothing elsewhere. The command line program runs exactly the configured number of trials, alternating one learning and one evaluation episode, and evaluation episodes leave evolution and exploration off.",
  ["histories","inputs","configurations"],"all action sequences, mazes, starting positions, seeds and step limits",
  "No test runs the built-in environments or the program.",
  ["xcsf/env_maze.c","xcsf/env_mux.c","xcsf/env_csv.c","xcsf/xcs_rl.c","xcsf/main.c"],
  [("episode loop","xcs_rl.c:xcs_rl_trial, xcs_rl_exp"),("environments","env_maze.c:env_maze_execute, env_mux.c:env_mux_execute")],
  ["environment state after each step","printed performance"])
p("C15","Input files are taken in whole or refused",
  "Configuration, data, maze and population files are read exactly, whatever chunks the operating system delivers. If one of them cannot be read completely because of a read error, or its contents are inconsistent (differing numbers of rows or columns, malformed JSON, unknown or out of range parameters, network dimensions that do not fit together or the problem), the program stops with an error instead of running on partial or altered data; out of range arguments of conditions and predictions may instead be corrected with a printed warning.",
  ["fault_sequences","inputs"],"all short-read patterns, all read-error positions, all line lengths and file sizes",
  "No test reads these files through faulty I/O.",
  ["xcsf/env_csv.c","xcsf/env_maze.c","xcsf/config.c","xcsf/clset.c"],
  [("CSV reader","env_csv.c"),("maze reader","env_maze.c"),("config reader","config.c:config_read"),("population file reader","clset.c:clset_load_pop_file")],
  ["data and parameters after startup","exit"])
p("C16","JSON export and import reproduce the rules",
  "A population exported as JSON and imported into a fresh model of the same configuration, directly, from a file, or as the initial population, gives the same rules in the same order with the same values to the precision written (about 15 digits), and the same predictions for every input up to that precision; representations without import refuse with an error. Exported parameters imported into a fresh model give the same parameters.",
  ["histories","configurations"],"all populations reached by any history, for every representation that supports import",
  "Tests import single hand-written rules.",
  ["xcsf/clset.c","xcsf/cl.c","xcsf/cond_rectangle.c","xcsf/cond_ellipsoid.c","xcsf/cond_ternary.c","xcsf/gp.c","xcsf/dgp.c","xcsf/pred_nlms.c","xcsf/pred_rls.c","xcsf/pred_constant.c","xcsf/act_integer.c","xcsf/param.c"],
  [("JSON","cl.c:cl_json_export/cl_json_import, clset.c:clset_json_insert, param.c:param_json_export/param_json_import")],
  ["JSON of the imported population","predictions"])
p("C17","Evaluating or inspecting a model does not change it",
  "Predicting, scoring, printing, exporting and saving leave everything learned unchanged: the rules, their order, conditions, predictions, actions, errors, fitness, experience and numerosity, and the parameters; only match statistics and current activations may change, and repeating an evaluation of rules without internal state gives identical results. Inspecting a model, predicting, and scoring on all samples consume no random numbers, so inserting them anywhere into a learning history of such rules does not change what is learned.",
  ["histories","inputs","configurations"],"all histories with evaluations inserted anywhere",
  "The test compares two predictions in a row on one configuration.",
  ["xcsf/xcs_supervised.c","xcsf/clset.c","xcsf/pa.c"],
  [("no covering, update or EA when evaluating","xcs_supervised.c:xcs_supervised_trial")],
  ["population before and after","continuation with and without evaluations"])
p("C18","Every call makes progress and finishes",
  "With every accepted configuration each learning trial, decision, episode step, prediction, save and load finishes within a number of steps bounded by the population size, rule sizes and configured limits, or stops with an error when covering fails too often. Covering, parent selection, action selection, mutation and deletion always come to an end.",
  ["histories","configurations"],"all accepted parameter values (including range ends), all reachable populations",
  "Tests use default-like parameters; endless retry loops need particular parameter values or populations.",
  ["xcsf/clset.c","xcsf/ea.c","xcsf/pa.c","xcsf/neural_layer.c","xcsf/cond_dgp.c","xcsf/cond_neural.c","xcsf/cond_gp.c","xcsf/rule_dgp.c","xcsf/rule_neural.c"],
  [("bounded covering attempts","clset.c:MAX_COVER"),("retry loops","ea.c:ea_select_tournament, pa.c:pa_rand_action, cond_*_cover, neural_layer.c:layer_mutate_neurons")],
  ["simulated step counter per call"])
p("C22","Reported errors, metrics and statistics are those of the run",
  "The error a training or reinforcement call returns is the mean error of exactly its trials, a score is the mean error of the samples scored (all of them, or as many random ones as asked for), and every printed performance line and Python metric covers exactly the trials since the one before and carries the right number of trials. The system error, the average match set and action set sizes and the matched fraction (of the most general accurate rule with experience above 1/BETA, else of the most accurate one) move by BETA towards the value of each trial, and population size, total numerosity and the mean sizes, layers, neurons, connections and learning rates are those of the rules there are.",
  ["histories","configurations"],"all histories of calls, reporting intervals, trial numbers, restarts and representations",
  "Tests read a statistic after one or two calls; a wrong window, count or weight shows only for particular intervals, histories or representations.",
  ["xcsf/perf.c","xcsf/xcs_supervised.c","xcsf/xcs_rl.c","xcsf/clset.c","xcsf/clset_neural.c","xcsf/pybind_wrapper.cpp"],
  [("performance lines","perf.c:perf_print"),("returned errors","xcs_supervised.c:xcs_supervised_fit, xcs_supervised_score, xcs_supervised_score_n, xcs_rl.c:xcs_rl_exp, xcs_rl_fit, xcs_rl_error"),("running averages","clset.c:clset_match, clset_action, clset_mfrac"),("population averages","clset.c:clset_mean_cond_size, clset_mean_pred_size, clset_neural.c"),("Python metrics","pybind_wrapper.cpp:update_metrics, print_status")],
  ["returned errors","printed lines","metrics","statistics after each operation"])
p("C23","Growing predictions or turning an autoencoder into a classifier keeps the rest",
  "xcsf_pred_expand inserts one connected layer before the output of every rule's network and xcsf_ae_to_classifier removes the asked number of top layers (never the last) and adds a linear and a softmax layer of the given number of classes. Both keep every rule with its condition, action, numerosity, set size and match counts and the weights of every layer that stays; layer sizes fit together, error, fitness and experience start afresh, and the model goes on training, predicting, saving and loading. Thereafter a classifier uses the one-hot loss and predicts probabilities, from old and from newly covered rules.",
  ["histories","configurations"],"all networks, histories before and after, numbers of removed layers and classes",
  "Tests convert one fixed network once and never train, save or cover afterwards.",
  ["xcsf/xcsf.c","xcsf/pred_neural.c","xcsf/neural.c"],
  [("restructuring","xcsf.c:xcsf_pred_expand, xcsf_ae_to_classifier, pred_neural.c:pred_neural_expand, pred_neural_ae_to_classifier"),("layer lists","neural.c:neural_insert, neural_pop, neural_resize")],
  ["rules and networks before and after each call","predictions of the classifier"])
p("C24","Evolved rules stay within their bounds, and only enabled traits evolve",
  "After any history every rule lies within what its configuration allows: centres, bounds and spreads of conditions, tree, graph and ternary structure, actions, mutation rates, and for each network layer the number of units (1 to its maximum, growing by at most the configured step per mutation), learning rate, weights, activation and connections, with layer sizes that fit together. Traits not enabled to evolve keep their configured or inherited values. An offspring starts with its parent's condition, action and (unless reset) prediction, crossover only exchanges genes between the two offspring and never happens at probability zero, parents are not touched, and an offspring is reported unchanged only if it is.",
  ["histories","configurations","randomness"],"all histories, configurations, combinations of evolvable traits and random draws",
  "Tests mutate a few rules once with one seed; bounds are left only after many generations, at the limits, or for particular combinations of enabled traits.",
  ["xcsf/neural_layer.c","xcsf/neural_layer_connected.c","xcsf/neural_layer_recurrent.c","xcsf/neural_layer_lstm.c","xcsf/neural_layer_convolutional.c","xcsf/neural.c","xcsf/cond_rectangle.c","xcsf/cond_ellipsoid.c","xcsf/cond_ternary.c","xcsf/gp.c","xcsf/dgp.c","xcsf/pred_nlms.c","xcsf/act_integer.c","xcsf/sam.c","xcsf/cl.c"],
  [("mutation and crossover","cond_*.c:*_mutate, *_crossover, gp.c:tree_mutate, tree_crossover, dgp.c:graph_mutate, neural.c:neural_mutate, neural_layer.c:layer_mutate_*, layer_add_neurons, pred_nlms.c:pred_nlms_mutate, sam.c:sam_adapt"),("inheritance","cl.c:cl_copy, cl_crossover, cl_mutate")],
  ["every rule after each call","copies of rules through crossover and mutation"])
p("C25","A refused or failed call leaves no trace",
  "When a Python call raises an exception - arrays of wrong shape, size or type, unusable validation data, an unsupported callback, a cover of the wrong length, an action or parameter value that cannot be used, a file that cannot be read or written - the model, its metrics and parameters and an episode under way are as they were: every later call gives the results it would have given without the refused one. Calls that cannot be carried out are refused.",
  ["histories","faults"],"all histories, places and kinds of refused calls, and disk errors",
  "Tests check at most that an exception is raised, not what the model does hundreds of trials later.",
  ["xcsf/pybind_wrapper.cpp"],
  [("argument checks","pybind_wrapper.cpp:fit, predict, score, decision, load_input, load_validation_data, get_cover, callbacks_run, set_params"),("file errors","pybind_wrapper.cpp:json_write, json_read, serialize")],
  ["every value returned later","population, statistics, metrics and parameters after each call"])
# not applicable to the technique
p("C19","Gradients, activations and layer arithmetic are mathematically right",
  "Every neural layer computes its documented forward function and its backward pass is the gradient of that function.",
  ["inputs"],"all weights and inputs","Unit tests compare a few fixed vectors.",
  ["xcsf/neural_layer_connected.c","xcsf/neural_layer_convolutional.c","xcsf/neural_layer_lstm.c","xcsf/neural_activations.c"],[("layer functions","neural_layer_*.c")],["layer outputs"])
p("C20","Conditions match and generalise according to their geometry",
  "A hyperrectangle, hyperellipsoid or ternary condition matches exactly the inputs inside its region, and is reported as more general than another only if its region contains the other's.",
  ["inputs"],"all conditions and inputs","Unit tests sample a few conditions.",
  ["xcsf/cond_rectangle.c","xcsf/cond_ellipsoid.c","xcsf/cond_ternary.c"],[("match and general","cond_*.c")],["match result"])
p("C21","Loss functions return the documented error measure",
  "Each selectable loss returns its documented value for every prediction and target.",
  ["inputs"],"all vectors","Unit tests sample a few vectors.",["xcsf/loss.c"],[("loss functions","loss.c")],["loss value"])
with open("properties.jsonl","w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
