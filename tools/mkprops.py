#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every policy Apollo recommends is a valid policy index of the region",
  "For every policy model and model parameters Apollo accepts, every (finite) feature vector and every history of executions, trainings, and stores and loads of the region's own models and data, the policy a region recommends is an integer in [0, number of policies of that region). "
  "A static policy at or above the number of policies falls back to policy 0, and a negative one is refused.",
  ["inputs", "histories", "configurations"],
  "all model kinds (Static, StaticRegion, RoundRobin, Random, DecisionTree, RandomForest, PolicyNet, DatasetMap, Optimal with an in-range schedule) x parameters x 1..many policies x feature vectors, seen or unseen in training, x interleavings of executions and trainings",
  "The tests use 2 or 4 policies, one feature, and only Static and DecisionTree models; an out-of-range choice for an unseen feature vector, a loaded model or another model kind is never exercised.",
  ["src/ModelFactory.cpp", "src/models/Static.cpp", "src/models/RoundRobin.cpp", "src/models/Random.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/models/PolicyNet.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/Region.cpp"],
  [("getIndex of every model", "src/models/*.cpp"), ("static policy range check", "src/ModelFactory.cpp createPolicyModel"), ("class set = measured policies", "src/models/impl/DecisionTreeImpl.cpp train")],
  ["return value of getPolicyIndex", "policy recorded in the region's dataset"])

p("C02", "Measurements aggregate per (features, policy) with a 0.5 moving average",
  "After any history of measurements, a dataset holds exactly one entry per distinct (feature vector, policy) pair that was measured: the first metric measured for the pair, and for each later one the mean of the value held and the new metric, in arrival order. "
  "No measurement is lost, duplicated or credited to another pair; merging a dataset into another acts like inserting each of its entries, and leaves the merged one unchanged.",
  ["histories", "inputs"],
  "all sequences of insert / merge / clear on datasets and of region executions with any features, policies and metrics, with repetitions of the same pair",
  "No test reads a dataset back; the tests only look at the policy that a tree trained from one regular sweep chooses.",
  ["src/Dataset.cpp", "include/apollo/Dataset.h", "src/Region.cpp"],
  [("keyed map with exponential moving average", "src/Dataset.cpp insert"), ("attribution of a context's features and policy", "src/Region.cpp collectContext")],
  ["Dataset::toVectorOfTuples and size"],
  [("data", "map (features, policy) -> averaged metric", "include/apollo/Dataset.h")])

p("C03", "Training data names, for each feature vector, its fastest measured policy",
  "From any dataset, the reduction that feeds training yields every distinct feature vector exactly once, with a policy that was measured for that feature vector and whose averaged metric is the minimum over the policies measured for it. "
  "A region that selects directly from a stored dataset recommends exactly that policy for each feature vector in the dataset, and refuses (terminates with an error) a feature vector that is not in it.",
  ["inputs", "histories"],
  "all datasets (any number of features, feature vectors, policies, metrics incl. zero, negative and equal ones) and all queries",
  "The reduction is only exercised indirectly by one 4x4 sweep with a large gap between the best and the other policies; the dataset-lookup model is never run.",
  ["src/Dataset.cpp", "src/models/DatasetMap.cpp", "src/Region.cpp"],
  [("findMinMetricPolicyByFeatures", "src/Dataset.cpp"), ("lookup of features", "src/models/DatasetMap.cpp getIndex")],
  ["the three outputs of findMinMetricPolicyByFeatures", "getPolicyIndex of a DatasetMap region", "exit status"])

p("C04", "A trained decision tree is a correct tree for the fastest measured policies",
  "After training on any dataset, a decision-tree model whose maximum depth suffices recommends, for every feature vector it was trained on, that vector's fastest measured policy. "
  "For any maximum depth d, the tree has at most d levels of splits, every split minimises the weighted Gini impurity over all single-feature thresholds, splitting stops only at depth d or when all samples agree, and each leaf recommends the most frequent policy among the training samples that reach it.",
  ["inputs", "histories"],
  "all datasets with equal-length finite feature vectors (incl. large, tiny, negative and nearly equal feature values), all max_depth, all later executions",
  "The only behavioural test trains on four integer feature values and did not pass at the pinned commit; split choice, depth limits, several features and close feature values are not reached.",
  ["src/models/impl/DecisionTreeImpl.cpp", "src/models/DecisionTree.cpp", "src/Region.cpp"],
  [("greedy Gini split", "src/models/impl/DecisionTreeImpl.cpp split"), ("recursion and stop rules", "src/models/impl/DecisionTreeImpl.cpp build_tree"), ("leaf class", "src/models/impl/DecisionTreeImpl.cpp Node constructor"), ("descent", "src/models/impl/DecisionTreeImpl.cpp evaluate_tree")],
  ["getPolicyIndex after train", "stored model file"])

p("C05", "A random forest recommends the majority vote of its bootstrapped trees",
  "After training with n trees of maximum depth d, a random-forest model consists of exactly n decision trees (also after being trained again), each a correct Gini tree of depth at most d for a sample, drawn with replacement and of the same size, from the fastest-policy training pairs. "
  "Its recommendation for any feature vector is a policy that receives the most votes of those trees, training is deterministic for given data, and when all training pairs name one policy it always recommends that policy.",
  ["inputs", "histories"],
  "all datasets, num_trees, max_depth, queries and numbers of (re)trainings",
  "No test creates a RandomForest.",
  ["src/models/impl/RandomForestImpl.cpp", "src/models/RandomForest.cpp"],
  [("bootstrap and tree construction", "src/models/impl/RandomForestImpl.cpp train"), ("majority vote", "src/models/impl/RandomForestImpl.cpp predict")],
  ["getPolicyIndex", "stored model file"])

p("C06", "Storing and loading a trained model preserves its decisions exactly",
  "A DecisionTree, RandomForest or PolicyNet model that is stored and loaded again, in the same or a later process, makes the same decision (for PolicyNet: has the same action probabilities and reward baseline) for every feature vector as the model that was stored, replacing whatever the loading model held before; storing it again gives the same model file. "
  "With model storing enabled (and per-region models), each training leaves the model both under the training step and as the latest model of the region in the configured directory, a region created with `load` starts from that latest model (or the named file) without exploring, and refuses to start when the file is missing.",
  ["inputs", "histories", "configurations"],
  "all trained models (any features, thresholds, depths, classes, tree counts, weights), all queries incl. feature values next to thresholds, all output directory settings",
  "No test stores or loads a model.",
  ["src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp", "src/helpers/Parser.cpp", "src/helpers/OutputFormatter.h", "src/Region.cpp"],
  [("text writer/reader of trees", "src/models/impl/DecisionTreeImpl.cpp output_tree/parse_tree"), ("binary weights", "src/models/PolicyNet.cpp store/load"), ("file naming", "src/Region.cpp train and constructor")],
  ["getPolicyIndex before store and after load", "model files"])

p("C07", "A persisted dataset comes back unchanged in the next run",
  "Storing a dataset and loading it into an empty one yields the same set of (features, policy, averaged metric) entries, bit for bit, for any finite feature and metric values. "
  "With persistent datasets enabled, a region that is created in a later run starts with exactly the measurements it held when the earlier run exited, and continues to aggregate on top of them; `load-dataset` trains the region at creation from the stored data. "
  "A dataset file made elsewhere (as create-dataset.py makes them) loads to exactly the entries it lists, whatever its # comments, spacing between tokens, entry numbers and number formats; repeated (features, policy) pairs average in file order.",
  ["inputs", "histories"],
  "all datasets (any finite floats and doubles, negative, tiny, huge, many digits, no features) and all sequences of program runs",
  "No test enables persistent datasets or stores a dataset.",
  ["src/Dataset.cpp", "src/helpers/Parser.cpp", "src/Region.cpp"],
  [("store/load", "src/Dataset.cpp"), ("number parsing", "src/helpers/Parser.cpp"), ("load at creation, store at destruction", "src/Region.cpp")],
  ["toVectorOfTuples after load", "Dataset-*.yaml files"])

p("C08", "A damaged model or dataset file is never silently accepted",
  "Loading a dataset, DecisionTree, RandomForest or PolicyNet file that was cut short at any point before its last significant byte terminates with an error instead of continuing with partial data, and so does loading a text file in which a key or a bracket is missing, replaced by something else, or (but for the last one) repeated, or a number other than an entry's label is replaced by a word. "
  "Loading an arbitrarily corrupted one either fails with an error or succeeds; it never accesses memory out of bounds, hangs, or crashes in any other way.",
  ["inputs", "crash_points", "fault_sequences"],
  "every truncation point (as left by a crash while storing) of every stored file, and byte/token mutations of stored files",
  "No test loads a file, intact or damaged.",
  ["src/helpers/Parser.cpp", "src/helpers/Parser.h", "src/Dataset.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/models/PolicyNet.cpp"],
  [("token reader with bounded buffer", "src/helpers/Parser.cpp getNextToken"), ("expected-token checks", "src/helpers/Parser.cpp parseExpected"), ("read of binary weights", "src/models/PolicyNet.cpp load")],
  ["exit status / exception of the loading process", "address sanitizer reports"])

p("C09", "Training happens exactly when it is requested or configured",
  "With per-region models, a region with a trainable model keeps exploring until a training event and follows the trained model from the next decision on: an explicit train call, the completed execution of a still-trainable region that makes the total (global period) or per-region (per-region period) execution count a multiple of the configured period, or the dataset of the region holding at least the configured minimum amount of training data, when an execution completes or at its creation from stored data. "
  "A global event trains every region that has measurements, a region without measurements is never trained, creating a region triggers no period-based training, and a trained DecisionTree or RandomForest keeps its decisions and (without persistent datasets) its measurements frozen unless training is forced.",
  ["histories", "configurations"],
  "all settings of the train periods and min_training_data, numbers of regions, and interleavings of executions and train calls",
  "The tests only call train once explicitly on one region, no period and no min_training_data is ever set.",
  ["src/Region.cpp", "src/Apollo.cpp"],
  [("autoTrain", "src/Region.cpp"), ("train", "src/Region.cpp"), ("Apollo::train", "src/Apollo.cpp"), ("execution counters", "src/Region.cpp collectContext")],
  ["model->isTrainable()", "getPolicyIndex", "dataset content", "stored model files per step"],
  [("region_executions", "total number of completed executions", "include/apollo/Apollo.h"), ("idx", "number of begun executions of a region", "include/apollo/Region.h")])

p("C10", "Exploration is fair: cyclic for RoundRobin, uniform for Random",
  "Under RoundRobin selection, or RoundRobin exploration of a not yet trained model, the k-th decision of a region (from 0) is policy k modulo its number of policies, independently of features and of other regions, so every run of as many consecutive decisions as policies tries each policy once. "
  "Under Random selection or exploration, each decision is drawn uniformly over all policies of the region, independent of the previous ones.",
  ["histories", "configurations"],
  "all numbers of policies, models with either explorer, features, and interleavings of decisions of several regions",
  "One test run with 4 policies relies on cyclic exploration; Random and several regions are never run.",
  ["src/models/RoundRobin.cpp", "src/models/Random.cpp", "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/ModelFactory.cpp"],
  [("getIndex", "src/models/RoundRobin.cpp, src/models/Random.cpp"), ("explorer selection", "src/ModelFactory.cpp")],
  ["sequence of getPolicyIndex results"])

p("C11", "Model selection strings and settings mean what is documented, or are refused",
  "Without a model setting every region always uses policy 0; a model string given at region creation overrides the environment, `Static,policy=p` and a per-region static list always give the named policy, an optimal-schedule file is replayed in order, and documented parameters (policy, explore, max_depth, num_trees, load, and lr, beta, threshold of PolicyNet) take effect with their defaults. "
  "An unknown model, unknown parameter, a region missing from a per-region static list, or contradictory training/modeling settings make Apollo terminate with an error instead of running with something else.",
  ["configurations", "inputs"],
  "all model strings built from documented and undocumented names, parameters, values and orders, given by environment or argument, and all combinations of the training/modeling switches",
  "The tests use two fixed model strings and the default settings.",
  ["src/Region.cpp", "src/ModelFactory.cpp", "src/Apollo.cpp", "src/models/Optimal.cpp", "HOWTO.md"],
  [("parsePolicyModel and validate", "src/Region.cpp"), ("createPolicyModel", "src/ModelFactory.cpp"), ("configuration checks", "src/Apollo.cpp constructor")],
  ["getPolicyIndex", "model name", "stored model header", "exit status"])

p("C12", "Asynchronous executions are each recorded once, with their own data",
  "For device-timed (asynchronous) executions, whichever order and however late they complete and however they overlap or interleave with synchronous ones, each ended execution is recorded exactly once after its completion, with the features, policy and elapsed device time (in seconds) of that execution. "
  "Completed executions are collected at the latest by the next end of an asynchronous execution of the region or the next explicit training of the still-trainable region, unfinished ones stay pending, and none is lost when the program ends.",
  ["schedules", "histories"],
  "all interleavings of begin/decide/end/complete of overlapping CUDA- or HIP-timed and synchronous executions of several regions, and trainings in between",
  "The tests only run synchronous regions; the asynchronous timers are not even compiled here.",
  ["src/Region.cpp", "src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp"],
  [("pending context list", "src/Region.cpp collectPendingContexts"), ("end / destructor drain", "src/Region.cpp"), ("event timers", "src/timers/*.cpp")],
  ["dataset content", "trace rows", "live timer events of the stand-in device runtime"],
  [("pending_contexts", "ended executions whose time is not known yet", "include/apollo/Region.h")],
  None)

p("C13", "The recorded time is the elapsed time between begin and end",
  "For every synchronous execution ended without an explicit metric, the metric recorded for its features and policy is the monotonic-clock time, in seconds, that elapsed from its begin to its end; when the application passes a metric, exactly that value is recorded. "
  "Timings of different executions, also of nested or interleaved executions of different regions, do not influence each other.",
  ["inputs", "schedules", "histories"],
  "all clock readings (incl. nanosecond borrow across seconds, zero and very long durations), metrics, and interleavings of executions of several regions",
  "The tests only need a delayed execution to be slower than an undelayed one.",
  ["src/timers/TimerSync.cpp", "src/Region.cpp"],
  [("start/stop/isDone", "src/timers/TimerSync.cpp"), ("end", "src/Region.cpp")],
  ["dataset metrics under a controlled clock", "trace xtime column"])

p("C14", "Traces and execution reports account for every execution",
  "With CSV tracing enabled, each region's trace has one row per completed execution, in completion order, giving rank, model in use, region, execution index, features, policy and metric of that execution under the documented header, and the global trace has one row per completed execution over all regions in order. "
  "With execution info enabled, the report lists every region once with its number of executions; these files are in the configured directories, and the total reported at exit is the number of completed executions. "
  "With policy tracing, every decision is listed in order with its region, model, features (integer part) and policy; with best-policy tracing, each training of a region leaves a file named after its step that lists every feature vector with its fastest policy and that policy's metric.",
  ["histories", "configurations"],
  "all histories of executions over several regions with any models, features and metrics, output directory settings, train events in between",
  "No test enables tracing.",
  ["src/Region.cpp", "src/Apollo.cpp"],
  [("trace output", "src/Region.cpp constructor and collectContext"), ("global trace and exec info", "src/Apollo.cpp")],
  ["trace-*.csv", "apollo_exec_info.csv", "rank-*-policies.txt", "step-*-best_policies.txt", "total on stderr at exit"])

p("C15", "Tracing, reporting and storing do not change tuning decisions",
  "For any application history with per-region models and without forced re-training, enabling or disabling any combination of the tracing, reporting, model storing and dataset persisting options (in an output directory without earlier data) changes neither the recommended policies nor, as long as the model is trainable, the recorded measurements.",
  ["histories", "configurations"],
  "pairs of runs of the same history with and without every subset of the observability options",
  "The tests never enable these options, and never compare two runs.",
  ["src/Region.cpp", "src/Apollo.cpp"],
  [("tracing branches", "src/Region.cpp train, getPolicyIndex, collectContext"), ("model store after training", "src/Region.cpp train")],
  ["policies and datasets of both runs"])

p("C16", "Regions tune independently, or share one model when asked to",
  "With per-region models, the decisions and measurements of a region depend only on that region's own executions and training events: interleaving it with other regions in any way gives the same results as running it alone. "
  "With a single shared model, every training gives all regions (with the same numbers of features and policies and the same DecisionTree or RandomForest model) the same model, trained on the union of all regions' measurements (merged by moving average in region-name order), and training without any measurement changes nothing.",
  ["histories", "configurations"],
  "all interleavings of executions, trainings and creations of several regions with any models",
  "The tests create one region only and never enable the single model.",
  ["src/Apollo.cpp", "src/Region.cpp"],
  [("per-region state", "include/apollo/Region.h"), ("merged dataset training", "src/Apollo.cpp train")],
  ["policies and datasets per region, interleaved and alone"])

p("C17", "Collective training gives every rank the measurements of all ranks",
  "In collective training over any number of MPI ranks, after a collective train call each rank's dataset of a region holds exactly the pairs that any rank had measured for the region of that name, own values first and other ranks' folded in, in rank order, by moving average; regions a rank does not have are ignored there and a rank's own data is not counted twice. Device-timed executions that completed before the call count as measured. "
  "Each region is then trained on that combined data, so a pair known to only one rank informs the decisions of every rank that has the region. A model stored in such a run gives the rank that loads it the same decisions, and with all-gather tracing the file of each training lists what every rank held before it, with rank, region, features (integer part), policy and metric.",
  ["inputs", "histories", "schedules"],
  "all numbers of ranks, region sets and datasets per rank (incl. empty ones, absent regions, different feature counts per region, 63-character names)",
  "The MPI test that runs 2 ranks uses local training; collective training is never enabled.",
  ["src/Apollo.cpp"],
  [("pack, allgather, unpack, insert", "src/Apollo.cpp gatherCollectiveTrainingData, packMeasurements, get_mpi_pack_measure_size")],
  ["datasets and decisions of every rank"])

p("C18", "PolicyNet follows the policy gradient and samples its own probabilities",
  "Each training of a PolicyNet changes its network by exactly one Adam step (documented lr, beta1, beta2) along the REINFORCE gradient over all recorded measurements, with reward exp(-metric) relative to the bias-corrected moving average (documented beta) of the mean reward, and changes nothing when that average is below the threshold. "
  "Each decision samples a policy from the softmax output of the current network for the current features (policy 0 while the average is below the threshold), so that a policy that is consistently faster becomes dominant.",
  ["inputs", "histories", "configurations"],
  "all datasets with non-negative integer features, numbers of features and policies, hyperparameters, and sequences of trainings and decisions",
  "No test creates a PolicyNet.",
  ["src/models/PolicyNet.cpp", "include/apollo/models/PolicyNet.h"],
  [("forward/backward/step", "src/models/PolicyNet.cpp FCLayer, ReLU, Softmax, Net"), ("reward baseline", "src/models/PolicyNet.cpp trainNet"), ("probability cache", "src/models/PolicyNet.cpp getIndex")],
  ["stored weights before and after training", "distribution of decisions"],
  [("actionProbabilityMap", "cache of probabilities, valid until the next network update", "include/apollo/models/PolicyNet.h")])

p("C19", "The Kokkos connector only proposes declared candidate values, and all of them",
  "For every tuning request, each tuning variable receives one of its declared candidates: a member of its set, or for a range a value lower + k*step within the bounds (excluding open ends; any value within the bounds for a double range with step 0); a variable without candidates keeps its value, and other fields of the variable are preserved. "
  "While exploring cyclically, as many consecutive requests of one tuning problem as there are combinations propose every combination of candidates exactly once; requests with the same variables share one region whose features are the context values, each ended context is recorded once with its elapsed time, ending an unknown context does nothing, kernels are fenced while problems are being explored (until the first flush), and a later run that finds a stored model for a problem loads it and follows it.",
  ["inputs", "histories", "configurations"],
  "all declarations of input and output variables (int64, double, string; sets and ranges, open or closed), tuning problems, sequences of requests and ends incl. unknown contexts, and repeated program runs",
  "The connector is compiled but no test calls it.",
  ["src/connectors/kokkos/kokkos-connector.cpp"],
  [("candidate construction", "src/connectors/kokkos/kokkos-connector.cpp associate_candidates, form_set_from_range, count_range_slices"), ("mixed-radix decoding", "src/connectors/kokkos/kokkos-connector.cpp kokkosp_request_values"), ("context bookkeeping", "src/connectors/kokkos/kokkos-connector.cpp kokkosp_end_context")],
  ["values written back into the tuning variables", "region datasets via stored files"])

p("C20", "JIT-compiled decision trees decide like interpreted ones",
  "A build with JIT-compiled tree evaluation makes exactly the same decisions as the default build, for every history of measurements, trainings, re-trainings, stores and loads and every feature vector, also when several processes on one machine use Apollo at the same time.",
  ["inputs", "histories", "schedules"],
  "all DecisionTree and RandomForest histories and queries, incl. feature values equal or next to thresholds, and concurrent processes",
  "The JIT tests only train on small integers, and the one that checks decisions failed at the pinned commit.",
  ["src/models/impl/DecisionTreeImpl.cpp"],
  [("generate_source, compile_and_link_jit_evaluate_function", "src/models/impl/DecisionTreeImpl.cpp")],
  ["getPolicyIndex in both builds"])

p("C21", "The C, context and context-free interfaces behave identically",
  "An application history expressed through the extern \"C\" functions, through explicit contexts with features set one by one, through contexts begun with a feature vector, or through the context-free region calls gives the same recommended policies, recorded measurements, training events and model state.",
  ["histories"],
  "all histories of region creation, executions, features, decisions, ends (with and without metric) and trainings",
  "The tests use only the context-free calls.",
  ["src/Apollo.cpp", "src/Region.cpp", "include/apollo/Apollo.h", "include/apollo/Region.h"],
  [("extern C wrappers", "src/Apollo.cpp"), ("overloads", "src/Region.cpp begin/end/setFeature/getPolicyIndex")],
  ["policies and datasets of each variant"])

p("C22", "Model-to-graph conversion shows exactly the stored model",
  "Any stored DecisionTree or RandomForest model file is readable by the graph conversion scripts, and the graph they write has exactly one node per tree and tree node of the model, labelled with that node's split or predicted policy, and exactly the parent-child edges of the model, with left and right children told apart. "
  "Forests stored by the OpenCV build are readable by rfc2dot_opencv.py, which writes one node per tree node, showing its value and split, and the edges between parents and children.",
  ["inputs"],
  "all stored DecisionTree and RandomForest models, and OpenCV forests",
  "No test runs the Python scripts; the build only checks that they parse.",
  ["src/python/analysis/dtree2dot.py", "src/python/analysis/rfc2dot.py", "src/python/analysis/rfc2dot_opencv.py", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp"],
  [("YAML subset written by the models", "src/models/impl/*.cpp output_tree, output_rfc"), ("parse_node/parse_tree/parse_rfc", "src/python/analysis/*.py")],
  ["dot file"])

p("C23", "Valid use is memory-safe and runs in bounded memory",
  "For any valid use of the C++, C and Kokkos interfaces, in any build (default, asynchronous timers, MPI), Apollo performs no invalid memory access: no read or write out of bounds, of freed or of uninitialised memory, and no double or mismatched free. "
  "Repeating the same executions, decisions, trainings (also forced re-trainings), loads and tuning requests, over feature vectors and policies that were all measured before, makes neither its memory consumption nor its number of device events grow.",
  ["histories", "inputs", "configurations"],
  "all valid programs: regions (also with names longer than the 63 kept characters) x models x histories of synchronous and asynchronous executions, trainings, stores, loads, traces, collective trainings and connector requests; any number of repetitions",
  "The tests are not run under a memory checker, are short, and a stray access or a leak does not change what they print.",
  ["src/Region.cpp", "src/Apollo.cpp", "src/Dataset.cpp", "src/models/PolicyNet.cpp", "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp", "src/connectors/kokkos/kokkos-connector.cpp", "src/helpers/Parser.cpp"],
  [("contexts are created by begin and destroyed when collected", "src/Region.cpp createRegionContext, destroyRegionContext, collectPendingContexts"), ("tree nodes", "src/models/impl/DecisionTreeImpl.cpp tree_nodes"), ("network buffers", "src/models/PolicyNet.cpp FCLayer, ReLU, Softmax"), ("fixed-size name buffers", "src/Region.cpp name; src/connectors/kokkos/kokkos-connector.cpp metadata->name"), ("event handles", "src/timers/*Async.cpp"), ("pack buffers", "src/Apollo.cpp packMeasurements, gatherCollectiveTrainingData")],
  ["sanitizer and valgrind reports", "bytes live in operator new", "live device events"])

p("C24", "The OpenCV backend keeps the guarantees of the builtin trees",
  "In a build with OpenCV (ENABLE_OPENCV), for regions with at least one feature: recommendations of trained DecisionTree and RandomForest models are policies that were fastest for some measured features, and a DecisionTree deep enough for the data recommends for every measured feature vector a policy that was fastest there. "
  "Trees respect max_depth and forests num_trees. A stored model, loaded into a new, a differently trained or a factory-made model or by a region of a later run, decides like the model that was stored; a missing or empty file is refused. "
  "With APOLLO_RETRAIN_ENABLE every training of a region builds a timing model from its current measurements that predicts the time of the fastest policy (never outside the range of the fastest measured times, and the measured time where all similar features took that time), stored with the models. "
  "Valid policies, aggregation, training events, independence of observability options and agreement of the interfaces hold as in the default build.",
  ["inputs", "histories", "configurations"],
  "all datasets with at least one feature x depths and forest sizes x store/load combinations x region histories, in the OpenCV build",
  "No test is built with OpenCV; the project's own build does not link that configuration.",
  ["src/models/DecisionTree.cpp", "src/models/RandomForest.cpp", "src/models/RegressionTree.cpp", "src/Region.cpp", "src/ModelFactory.cpp"],
  [("OpenCV parameters and training matrices", "src/models/DecisionTree.cpp, src/models/RandomForest.cpp ENABLE_OPENCV"), ("fastest metric per feature vector", "src/models/RegressionTree.cpp"), ("time_model, regtree-*.yaml", "src/Region.cpp train")],
  ["policy index", "time prediction", "stored files"])

p("C25", "A call-site identifier names exactly the call site it was asked for",
  "The identifier getCallpathOffset(d) is '<module>@<address>': the file name, without directories, of the program or loaded library that contains the call site d-1 calls above it (default d = 2: the place that asks), and that call's return address. "
  "Within a run, asking again from the same call site with the same distance gives the same identifier however it was reached, different call sites get different identifiers, and asking keeps no memory.",
  ["inputs", "histories"],
  "all chains of calls at least d deep, through the program and libraries in files of any name",
  "No test calls it; which frame it names depends on the whole call chain.",
  ["src/Apollo.cpp", "include/apollo/Apollo.h"],
  [("stack walk and parsing of the symbol line", "src/Apollo.cpp Apollo::getCallpathOffset")],
  ["identifier string"])

p("C26", "Exhaustive measurement runs and traces every policy",
  "run-exhaustive.py runs the given command once with every static policy 0..n-1, in this order, and then once with cyclic exploration, each with tracing on and re-training off whatever the environment said, other variables passed on; afterwards there is, for every region and run, a trace file with exactly the policies and times of that run. "
  "As soon as a run fails it stops and ends with an error status.",
  ["inputs", "configurations", "faults"],
  "all programs, numbers of policies, environments and failing runs",
  "No test runs the script.",
  ["src/python/analysis/run-exhaustive.py", "src/Region.cpp"],
  [("main", "src/python/analysis/run-exhaustive.py"), ("trace file per model and region", "src/Region.cpp")],
  ["commands and settings run", "trace files", "exit status"])

p("C27", "MPI ranks that train locally tune as if they were alone",
  "In an MPI run with local training, each rank's decisions, measurements, trainings and models are those its own history gives in a run alone, whatever and whenever the other ranks measure and train. "
  "Its traces, stored models, decision lists and best-policy files are its own, named after its rank and stating its rank, with the contents of a run alone, and a region created with `load` or with an Optimal schedule takes the file of its own rank.",
  ["inputs", "histories", "schedules", "configurations"],
  "all numbers of ranks and histories per rank, with any of the traces and model storing on, in a shared directory; dataset persistence and execution info are not per rank and excluded",
  "No stable test runs with MPI; what a rank does depends on what all others do.",
  ["src/Apollo.cpp", "src/Region.cpp"],
  [("rank and directories", "src/Apollo.cpp Apollo::Apollo"), ("train", "src/Apollo.cpp"), ("file names with the rank", "src/Region.cpp"), ("load, Optimal", "src/Region.cpp Region::Region")],
  ["policy index", "dataset contents", "output files"])

p("C28", "Outputs survive a killed program, and a failing output disturbs nothing else",
  "Each stored model, best-policy file and decision list is complete on disk when the call that makes it returns: a program killed at any later point leaves them as in an undisturbed run, its CSV traces hold a prefix of their rows, and the datasets of the earlier run are untouched, so that the next run starts from them. "
  "An output directory or trace file that cannot be created makes Apollo terminate with an error when it starts or creates the region; any other output file that cannot be written leaves decisions, measurements and all other files as they are without the failure, and a dataset or execution report that cannot be written is reported on the error stream.",
  ["inputs", "histories", "crash points", "faults"],
  "all histories, all points at which the program is killed, each output file or directory made unwritable",
  "The tests neither kill the program nor make an output fail.",
  ["src/Apollo.cpp", "src/Region.cpp", "src/models"],
  [("createDir, trace files, execution info", "src/Apollo.cpp"), ("train, getPolicyIndex, destructor", "src/Region.cpp"), ("store", "src/models/*.cpp")],
  ["files after a kill", "decisions", "exit status", "error messages"])

p("C29", "Datasets made from traces hold what was measured",
  "For any CSV traces that Apollo wrote, given to create-dataset.py as files or as their directories, there is one dataset per traced region, which Apollo loads, whatever other regions with whatever numbers of features, runs and directories are among the traces: "
  "with aggregation none one entry per trace row, with mean one per feature vector and policy with the mean of their times, with min one per feature vector with a policy and the time of its fastest row, with mean-min one per feature vector with a policy of least mean time and that time.",
  ["inputs", "histories"],
  "all sets of traces with at least one feature per region, all aggregations",
  "No test runs the script; what an entry must be depends on all rows of all traces.",
  ["src/python/modeling/create-dataset.py", "src/Region.cpp", "src/Dataset.cpp"],
  [("aggregations, reading of traces", "src/python/modeling/create-dataset.py"), ("trace rows", "src/Region.cpp Region::collectContext"), ("load", "src/Dataset.cpp")],
  ["dataset files", "loaded dataset contents"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
