#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles / statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["parametricmatrixmodels/" + f for f in files],
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                               mechanism=[dict(name=n, where="parametricmatrixmodels/" + w) for n, w in mechanism],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "Training hands back the model of the best validation epoch",
 "After training, the model's parameters, module state, random key and stored optimizer state are all those that existed at the end of the one epoch (or before the first epoch) whose validation loss was the lowest, the earliest such epoch if several tie. Epochs that come after the best one, whatever their losses and whatever a user callback does to the parameters, leave no trace in the returned model.",
 ["histories", "inputs", "configurations"],
 "for every sequence of validation losses (plateaus, ties, late improvements, worse-than-initial), every epoch budget, patience, min_delta, batch layout and callback behaviour",
 "Tests train a few smooth regression problems and look at the final loss; they never see a run whose best epoch is neither the first nor the last, ties, or a callback that changes parameters, and never compare state, key and optimizer together.",
 ["training.py", "model.py"],
 [("best_* fields of the training state are replaced only on strict improvement", "training.py:epoch_body_fn"), ("results copied back into the model", "model.py:Model.train")],
 [("best_val_loss/best_adam_state/best_model_states/best_model_rng", "snapshot of the best epoch", "training.py:TrainingState")],
 ["Model.get_params/get_state/get_rng after Model.train", "callback arguments"])

prop("C02", "Training runs exactly as many epochs as its stopping rules prescribe",
 "Training stops at the first epoch boundary at which the epoch budget is used up, the best validation loss has reached the target loss, or the given number of epochs in a row have failed to bring the validation loss down by at least the required minimum improvement below the best so far; it never stops earlier or later. The user callback is called exactly once per completed epoch, in order, with that epoch's parameters, and the parameters it returns are the ones the next epoch starts from.",
 ["histories", "inputs", "configurations"],
 "for every sequence of validation losses and every combination of epochs, patience, min_delta, target loss and callback",
 "Tests run for a handful of epochs with default patience and never count epochs; the stop decision depends on the whole loss history.",
 ["training.py"],
 [("loop condition and patience counter", "training.py:epoch_cond_fn, epoch_body_fn"), ("callback", "training.py:epoch_body_fn")],
 [("epoch, patience, best_val_loss", "loop counters", "training.py:TrainingState")],
 ["sequence of callback invocations", "recorded loss evaluations"])

prop("C03", "Each epoch uses every training sample once, kept with its own target",
 "In every training epoch each training sample is used in exactly one parameter update, in batches of at most the configured batch size, and always together with its own target and its own uncertainty. In every validation pass each validation sample is used exactly once together with its own target and uncertainty, with the model in inference mode, and validation changes neither the module state nor the parameters; when no validation set is given the training set plays that role.",
 ["inputs", "configurations", "histories"],
 "for every number of samples, batch size (including ones that do not divide, equal or exceed the number of samples), validation size, PyTree structure of inputs and targets, and epoch",
 "Tests use a few sample counts and only look at the loss; a mispaired target, a dropped remainder batch or a batch visited twice still lowers the loss.",
 ["training.py", "tree_util.py"],
 [("joint shuffling of inputs/targets/uncertainties", "training.py:epoch_body_fn, tree_util.py:random_permute_leaves"), ("remainder batch", "training.py:batch_body_fn / epoch_body_fn"), ("validation batching", "training.py:batched_val_loss_fn")],
 None, ["samples seen by the loss function", "module state"])

prop("C04", "Frozen modules are never changed by training, all others are trained",
 "Training leaves every parameter of every module marked as not trainable bit-for-bit unchanged and applies updates to the parameters of all modules marked trainable, however the marks were set: on the module, on the containing model, through nesting, before or after compilation, or changed between training runs, whether or not the run resumes a previous one. Reading the marks back gives what was set, and a model counts as trainable exactly when some module in it does.",
 ["histories", "configurations"],
 "for every history of freeze, unfreeze, edit, train and resume over every model structure",
 "One fine-tuning test freezes one layer once; freeze/unfreeze histories with resumed optimizer state and nested models are not reached.",
 ["training.py", "model.py", "modules/basemodule.py"],
 [("per-module trainable flags consulted in the train step", "training.py:_train_step"), ("flag broadcast", "model.py:Model.trainable")],
 [("trainable flags", "which parameter groups may change", "modules/basemodule.py:BaseModule.trainable")],
 ["Model.get_params before/after Model.train", "trainable property"])

prop("C05", "Resuming continues the stored optimizer; not resuming starts a fresh one",
 "A training run that asks to resume continues from exactly the optimizer state that the last training run left in the model, and a run that does not ask to resume behaves exactly as on a model that was never trained but has the same parameters, state and key. This holds also when the model was saved to a file and reloaded in between; asking to resume without a stored optimizer state is refused and leaves the model unchanged.",
 ["histories"],
 "for every history of train, resume, save, load, parameter assignment and freezing",
 "Tests resume once in memory and check that the loss decreased; equality of two histories is never checked.",
 ["training.py", "model.py"],
 [("optimizer state stored with the model", "model.py:Model.train, serialize, deserialize"), ("initial optimizer state", "training.py:train")],
 [("_optimizer_state", "moments and step counters", "model.py:Model")],
 ["Model.get_params after each training call"])

prop("C06", "A saved model loads back as the same model",
 "Saving any model, compressed or not, and loading it into a new object gives a model with the same predictions, parameters, module state, random key, trainable marks, precision and input shape, that can be used, trained and saved again exactly as the original could. This holds for every kind of model and module, any nesting of them, any module options, and whether or not the model has been compiled or trained; saving does not change the model.",
 ["programs", "histories", "configurations"],
 "for every model built from the package's modules with any options, in any container structure, at any point of its life",
 "Tests round-trip a few modules with default options; options that are not written out only show up as wrong predictions after reload of non-default configurations.",
 ["model.py", "modules/basemodule.py", "nonsequentialmodel.py", "modules/linearnn.py"],
 [("serialize/deserialize", "model.py:Model.serialize, Model.deserialize"), ("per-module hyperparameters", "modules/*.py:get_hyperparameters/set_hyperparameters")],
 None, ["Model.save/save_compressed/load/from_file", "predictions of the loaded model"])

prop("C07", "A model always behaves as its current modules, whatever its edit history",
 "After any sequence of appending, prepending, inserting, replacing, removing modules and recompiling, a sequential model computes exactly the composition of the modules it currently holds, in their current order, with their current parameters, and nothing computed before an edit is ever reused. After an edit the model reports itself not ready and refuses to predict until it is compiled again, and building a new model out of an existing one with the addition operator leaves the existing model unchanged.",
 ["histories", "programs"],
 "for every sequence of edits, compilations, parameter assignments and calls, over list, tuple and dict containers",
 "Tests build models once; caches of compiled callables are only wrong after particular edit-call-edit orders.",
 ["model.py", "sequentialmodel.py"],
 [("reset on edit", "model.py:Model.reset, insert_module, pop_module_*"), ("callable caches", "model.py:Model.__call__"), ("addition", "model.py:Model.__add__")],
 [("modules, callable caches, input_shape/output_shape", "what the model is and what it has compiled", "model.py:Model")],
 ["Model.__call__", "is_ready()"])

prop("C08", "Predictions depend on neither the batch split nor on earlier predictions",
 "Calling a model on a dataset gives for each sample the same result whatever maximum batch size is chosen, whether or not recompilation is avoided, and whichever other samples are in the same call, for modules that treat samples independently. Predicting changes no parameters, and changes the stored module state only when asked to; then, as in the returned state, every batch sees the state left by the batch before it, and the samples are visited in order, each exactly once.",
 ["inputs", "histories", "configurations"],
 "for every sample count, batch size, recompilation option, PyTree structure of the data, model and history of earlier calls",
 "Tests call models on a couple of batch sizes; remainder batches, single-sample batches and state threading across batches are not reached.",
 ["model_util.py", "model.py"],
 [("batched evaluation", "model_util.py:autobatch"), ("state update on request", "model.py:Model.__call__")],
 None, ["Model.__call__ with batch size options", "get_state"])

prop("C09", "A graph model computes its connection graph, and rejects impossible ones",
 "A non-sequential model feeds each module exactly the inputs that its connections name and delivers exactly the outputs that the connections route to the model output, evaluating every module after all the modules it depends on. The result depends only on the graph, not on the order in which modules or connections were written down or on how the modules are named or grouped. Graphs that contain a dependency cycle, or refer to modules that do not exist, are refused rather than evaluated.",
 ["programs", "inputs"],
 "for every connection graph (fan-in, fan-out, chains, diamonds, nested groups, pass-through, unused modules, cycles) and every input",
 "Tests run a few hand-written graphs; the number of graphs over even three modules is in the thousands.",
 ["nonsequentialmodel.py", "graph_util.py"],
 [("topological resolution", "graph_util.py:resolve_connections"), ("input assembly", "graph_util.py:place_connections_in_tree"), ("execution", "nonsequentialmodel.py:NonSequentialModel._get_callable")],
 None, ["NonSequentialModel.__call__", "get_execution_order()", "get_output_shape()"])

prop("C10", "Wrong-shaped input is refused and declared shapes are the real ones",
 "Every model and module that accepts an input shape declares exactly the output shape that its evaluation then produces, for every sample count and through any composition. A compiled model refuses data whose per-sample shape or structure differs from the one it was compiled for, and a model that is not compiled refuses to predict; a refused call changes nothing.",
 ["inputs", "programs", "configurations"],
 "for every module, option combination, composition and input shape",
 "Tests check a few shapes per module with default options; declared and real shapes are computed by different code.",
 ["model.py", "sequentialmodel.py", "nonsequentialmodel.py", "modules/eigenvalues.py", "modules/matmul.py", "modules/einsum.py"],
 [("get_output_shape per module", "modules/*.py:get_output_shape"), ("input verification", "model.py:Model._verify_input")],
 None, ["get_output_shape", "Model.__call__", "Model.output_shape"])

prop("C11", "Array-shuffling and algebra modules compute their documented function",
 "The tensor modules (index contraction, matrix products, reshaping, flattening, leaf selection and concatenation, bias, constants, parametric rectifier, dense layers, affine matrices and tensors, observables) compute, for every sample separately, exactly the function their documentation defines, in terms of their options, their parameters and that sample. This includes PyTree inputs, custom path orders and separators, fixed and trainable leading arrays, and negative axes.",
 ["inputs", "configurations"],
 "for every option combination, parameter value, PyTree structure and input",
 "Tests check one or two option combinations per module, often by shape only.",
 ["modules/einsum.py", "modules/matmul.py", "modules/concatenateleaves.py", "modules/treekey.py", "modules/reshape.py", "modules/flatten.py", "modules/treeflatten.py", "modules/bias.py", "modules/constant.py", "modules/prelu.py", "modules/affinetensor.py", "modules/affinehermitianmatrix.py", "modules/lowrankaffinehermitianmatrix.py", "modules/expectationvaluesum.py", "modules/transitionamplitudesum.py", "modules/linearnn.py"],
 [("module callables", "modules/*.py:_get_callable")],
 None, ["module and model call results on integer data"])

prop("C12", "Eigenvalue modules return the requested eigenpairs in the documented order",
 "For every matrix, number of requested pairs and selection rule (smallest, largest, exterior, interior; algebraic or by magnitude), the eigenvalue, eigenvector and eigensystem modules return exactly the pairs that the rule defines, each once and in the documented ascending order, with every eigenvector belonging to the eigenvalue in the same place. All three modules and the combined eigenvalue model agree on the selection.",
 ["inputs", "configurations"],
 "for every spectrum (signs, parity of the count, exact magnitude order), every number of pairs and every rule",
 "Tests look at one or two matrix sizes and mostly the default rule; odd/even splits of exterior and interior selections are case analysis.",
 ["eigen_util.py", "modules/eigenvalues.py", "modules/eigenvectors.py", "modules/eigensystem.py", "modules/affineeigenvaluepmm.py"],
 [("selection", "eigen_util.py:select_eigenvalues, select_eigenpairs_by_eigenvalue")],
 None, ["module outputs on matrices with known spectra"])

prop("C13", "Scalers invert themselves, refuse use before fitting and survive saving",
 "A scaler refuses to transform before it has been fitted; after fitting, transforming gives exactly the documented affine or one-hot encoding with the statistics of the last fitted data only, and the inverse transform recovers the original data. A scaler that was saved and loaded behaves identically, and a mixed scaler applies to each part of the data the scaler assigned to that part.",
 ["inputs", "histories", "configurations"],
 "for every history of fit, refit, transform, save and load, every feature layout (PyTrees, several features, several dimensions) and every option",
 "Tests fit once on one array per scaler; refitting, multi-feature and PyTree layouts, and reload of non-default options are not reached.",
 ["preprocessing/scaler.py", "preprocessing/standard_scaler.py", "preprocessing/minmax_scaler.py", "preprocessing/robust_scaler.py", "preprocessing/mixed_scaler.py", "preprocessing/onehot.py"],
 [("fit/transform/inverse_transform", "preprocessing/*.py"), ("serialize/deserialize", "preprocessing/scaler.py:Scaler.save, Scaler.load")],
 None, ["fit, transform, inverse_transform, save, load"])

prop("C14", "Conformal intervals come from the current calibration and cover it",
 "After calibration a conformalized model returns, for any requested miscoverage level, intervals centred on its prediction that contain at least the required share of the calibration targets, computed only from the most recent calibration data. Intervals for a smaller miscoverage level contain those for a larger one, repeating a request gives the same answer in any order of requests, and intervals are refused before calibration.",
 ["histories", "inputs", "configurations"],
 "for every history of calibrations, interval requests and saves, every calibration set and every level",
 "Tests calibrate once and ask once or twice; stale cached quantiles need recalibration, and the finite-sample rank needs small sets.",
 ["conformal/conformalizedmodel.py"],
 [("quantile of the scores", "conformal/conformalizedmodel.py:get_qhat"), ("calibration", "conformal/conformalizedmodel.py:calibrate")],
 [("scores, qhats", "calibration scores and cached quantiles", "conformal/conformalizedmodel.py:ConformalizedModel")],
 ["ConformalizedModel.__call__", "get_qhat"])

prop("C15", "A saved conformalized model keeps its model and its calibration",
 "Saving a conformalized model, compressed or not, and loading it gives back the same underlying model, the same calibration, the same options and hence the same predictions and intervals for every level, including levels requested before and never requested, and it can be recalibrated and saved again.",
 ["histories", "configurations"],
 "for every base model, heuristic option, history of calibrations and requests, and file naming",
 "Tests never reload a conformalized model with non-default options and compare intervals.",
 ["conformal/conformalizedmodel.py"],
 [("serialize/deserialize/save/from_file", "conformal/conformalizedmodel.py")],
 None, ["ConformalizedModel.save/save_compressed/from_file"])

prop("C16", "An interrupt ends verbose training cleanly with the best model so far",
 "An interrupt or termination signal during verbose training ends the run at the next epoch boundary and the model then holds the best epoch reached so far, exactly as if that had been the epoch budget. The process's own signal handling is back in place after every training run, whether it ended normally, by signal or by an error.",
 ["schedules", "fault_sequences", "histories"],
 "for every epoch at which a signal arrives, either signal, with and without verbose output, and every later training run",
 "Tests never send signals.",
 ["training.py"],
 [("signal handler", "training.py:GracefulKiller"), ("kill check", "training.py:epoch_cond_callback")],
 None, ["number of epochs run", "signal.getsignal after training"])

prop("C17", "The same seed and inputs always give the same model and results",
 "Two models built the same way and compiled, trained and called with the same seeds, data and options end with bit-identical parameters, state, key and outputs, however many other models were built, trained or called in between and whether the model was copied or reloaded on the way. Different seeds give different initial parameters, and no module shares its random numbers with another module of the same model.",
 ["histories", "programs"],
 "for every interleaving of operations on several models, every model structure and seed",
 "Tests fix one seed and one model per process; cross-talk between models needs interleavings.",
 ["model.py", "sequentialmodel.py", "nonsequentialmodel.py", "training.py"],
 [("key splitting at compilation and evaluation", "sequentialmodel.py:compile, nonsequentialmodel.py:compile"), ("epoch keys", "training.py:train")],
 None, ["get_params/get_rng/get_state", "predictions"])

prop("C18", "Gradients are those of the current model and do not depend on batching",
 "For models with real inputs, parameters and outputs, the gradient of the predictions with respect to the inputs and with respect to the parameters equals, for each sample and output, the derivative of the function the model currently computes, for forward and reverse modes, any maximum batch size and either recompilation option. Asking for gradients changes nothing in the model and results never come from parameters or modules the model no longer has.",
 ["inputs", "histories", "configurations"],
 "for every model, differentiation mode, batch layout, and history of edits and parameter assignments between calls",
 "Tests do not compare gradients across modes, batch layouts or edits.",
 ["model.py", "model_util.py"],
 [("gradient callables and their caches", "model.py:Model.grad_input, Model.grad_params")],
 None, ["grad_input, grad_params"])

prop("C19", "Path operations on nested containers read and write exactly one place",
 "Reading a path in a nested container returns the value stored there, writing a path changes that place and nothing else, extending a container creates exactly the missing places and keeps the existing ones, and none of these alters the containers passed in beyond what is documented. A path that does not exist is refused when reading.",
 ["inputs", "programs"],
 "for every nested structure of dicts, lists and tuples, every path (including keys that are prefixes of each other) and every separator",
 "Tests check a dozen literal trees.",
 ["tree_util.py"],
 [("path traversal", "tree_util.py:getitem_by_strpath, setitem_by_strpath, extend_structure_from_strpaths")],
 None, ["return values and argument containers after the call"])

prop("C20", "Connection shorthand expands to exactly the module-to-module edges it denotes",
 "Expanding, partitioning and resolving a set of connections keeps exactly the edges it was given: every expanded edge comes from exactly one written connection, none is lost or invented, edges within a nested group and edges between groups are separated by the group structure alone, and the resolved order lists precisely the modules that lie between input and output, each after all its sources. Names that merely begin like another name or like the reserved input and output names make no difference.",
 ["inputs", "programs"],
 "for every set of connections over nested names, including names that share prefixes",
 "Tests check literal connection dictionaries.",
 ["graph_util.py"],
 [("concretize/partition/outer/place/resolve", "graph_util.py")],
 None, ["return values of the graph utilities", "behaviour of graph models"])

prop("C21", "Training and validation use exactly the loss that was asked for",
 "Each named loss is its stated formula (squared, absolute, relative error, relative difference, pseudo-Huber with its delta, each optionally divided by the target uncertainties) averaged over all samples and all entries of all leaves, for bare arrays and for PyTrees, supervised or unsupervised. The validation loss that training acts on is the mean over the validation batches of that loss, and each update follows the derivative of that loss on its batch. A loss passed as a function is called with the data that was provided and leads to the same decisions and updates as the equivalent named loss.",
 ["inputs", "configurations"],
 "for every loss, PyTree structure, uncertainty and batch layout",
 "Tests use the mean squared error on arrays.",
 ["training.py", "model.py", "tree_util.py"],
 [("loss construction", "training.py:make_loss_fn"), ("custom loss adaptation", "model.py:Model.train, training.py:train")],
 None, ["losses seen by training decisions"])

prop("C22", "Parameters, state and precision can be read and written without distortion",
 "Reading a model's parameters or state and writing them back changes nothing, writing other values of the same structure makes the model compute with exactly those values, and a write with the wrong structure or shapes is refused and changes nothing. Changing the precision converts every parameter and state array and nothing else, keeps complex values complex, and the model keeps computing the same function within that precision.",
 ["histories", "programs"],
 "for every model structure and every sequence of reads, writes and precision changes",
 "Tests set parameters of single modules.",
 ["model.py", "modules/basemodule.py"],
 [("get/set", "model.py:Model.get_params, set_params, get_state, set_state"), ("precision", "model.py:Model.set_precision, modules/basemodule.py:set_precision")],
 None, ["get_params, set_params, get_state, set_state, set_precision, astype"])

prop("C23", "Every parameter update is the Adam step with the options that were given",
 "An update replaces every trainable entry by entry - learning rate * mean / (root of the second moment + epsilon), where the gradient of the batch loss has its components clipped to the given bound, mean and second moment are decayed averages of the gradient and its squared magnitude with the given rates, both corrected for their start at zero by the number of epochs that parameter has been trained, and the learning rate is the given number or the value of the given schedule at that number of epochs. Complex parameters step along steepest descent with the squared modulus as second moment. Changes made by a callback leave the averages alone, frozen parameters and their averages and counts stand still, and resumed training carries on from the averages and counts reached.",
 ["inputs", "histories", "configurations"],
 "for every option setting, gradient sequence, freezing, callback and resumption history",
 "Tests check that losses go down.",
 ["training.py", "model.py"],
 [("optimizer", "training.py:adam, complex_adam"), ("update", "training.py:_train_step, train"), ("resumption", "model.py:Model.train")],
 None, ["parameters after each epoch of training"])

prop("C24", "The uncertainty heuristic of a calibrated model is the documented one",
 "The scale of a calibrated model's intervals is the sum of three terms, each divided by its median absolute deviation over the calibration set: the parameter sensitivity (sum of squares of gradient times parameter over the chosen parameters, divided by their number), the input sensitivity (sum of squares of gradient times interquartile range of the training data, and times given input uncertainties, over the chosen continuous features, divided by their number) and the distance (mean Gower distance to the distinct training points within the cutoff quantile of nearest-neighbour distances, the nearest one if none is, divided by the number of features, where categories never seen in training are mismatches). Leaves that were switched off do not contribute. Bias correction adds the median calibration residual of all samples, or of the sample's stratum and nothing for strata never seen. All of this holds again after saving and loading and after calibrating anew.",
 ["inputs", "configurations"],
 "for every model, data set, choice of leaves and option setting",
 "Tests check coverage on one data set.",
 ["conformalmodel.py", "tree_util.py"],
 [("sensitivities", "conformalmodel.py:ConformalModel.parameter_sensitivity, input_sensitivity"), ("distance", "conformalmodel.py:ConformalModel.distance"), ("calibration", "conformalmodel.py:ConformalModel.calibrate")],
 None, ["parameter_sensitivity, input_sensitivity, distance, heuristic, predictions of calibrated models"])

prop("C25", "Array operations on PyTrees act on every leaf and keep the structure",
 "Arithmetic, powers, roots, magnitudes, casts and scalar operations on PyTrees of arrays apply the operation to every entry of every leaf and return the same structure; trees of different structure are refused. Joining, cutting and splitting along an axis give the entries in order without loss or repetition, with the remainder separate; permuting moves the entries along the axis by one permutation for all leaves, or independent ones only where asked for; the mean is over all entries. Shape and equality queries answer for all leaves at the chosen axes.",
 ["inputs"],
 "for every tree, shape, axis and piece size",
 "Tests do not cover the array utilities on PyTrees.",
 ["tree_util.py"],
 [("arithmetic", "tree_util.py:add, sub, mul, div, neg, abs, pow, scalar_add, scalar_mul"), ("pieces", "tree_util.py:concatenate, batch_leaves, pytree_split, random_permute_leaves"), ("queries", "tree_util.py:get_shapes, shapes_equal, all_equal, all_close, is_single_leaf")],
 None, ["results of tree_util functions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
