import c_train, c_life, c_edits, c_trees, c_graph, c_obj, c_conf, c_scal, c_eig, c_batch, c_vals, c_shape, c_grad, c_loss, c_tens, c_opt, c_heur, c_leaf
CHECKS = {"C01": c_train.c01, "C02": c_train.c02, "C03": c_train.c03, "C04": c_life.c04, "C05": c_life.c05,
          "C06": c_obj.c06, "C07": c_edits.c07, "C10": c_shape.c10, "C11": c_tens.c11, "C21": c_loss.c21, "C23": c_opt.c23, "C24": c_heur.c24, "C25": c_leaf.c25, "C18": c_grad.c18, "C22": c_vals.c22, "C08": c_batch.c08, "C12": c_eig.c12, "C13": c_scal.c13, "C14": c_conf.c14, "C15": c_conf.c15, "C16": c_train.c16, "C17": c_obj.c17, "C19": c_trees.c19,
          "C09": c_graph.c09, "C20": c_graph.c20}
NOTES = {
 "C01": "Exhaustive TLC exploration of the epoch loop (all loss sequences, budgets, patience, callbacks within small bounds); a sample of its behaviours and random longer ones replayed into Model.train and the recorded runs judged by TLC. Bounded, integer-exact runs; not a proof for all sizes.",
 "C02": "As C01, for the stopping rule and callback protocol; bounded epochs and loss alphabets.",
 "C03": "As C01, for the multiset of samples each update and validation pass used, recorded through instrumented modules; bounded data sets.",
 "C04": "Exhaustive TLC exploration of freeze/train/resume/reload histories on 2-3 leaf modules; sampled behaviours replayed on ten container structures, parameters predicted exactly.",
 "C05": "As C04 for optimizer resumption, plus bit-pattern congruence of real Adam runs along histories the specification identifies.",
 "C07": "Exhaustive TLC exploration of edit/compile/set histories (outer, nested and summed model, depth 4-5); sampled behaviours and longer random histories replayed on list-, tuple- and dict-held models, with every prediction decoded to the modules applied.",
 "C19": "Laws of get/put/extend over every small tree and path pair by TLC; the enumerated cases and larger random trees, paths and separators run through tree_util with TLC computing the exact expected tree.",
 "C09": "TLC evaluates every two- or three-module graph as a state machine with free evaluation order; all two-module graphs and random larger nested ones are built as real models whose modules hash exactly what they receive, and TLC computes the expected outputs, execution order or refusal.",
 "C20": "Declarative meaning of connection shorthand in TLA+; all 65536 graphs over three modules (sampled in the quick tier) and random connection sets with confusable names run through graph_util and judged by TLC.",
 "C06": "TLC enumerates histories of two objects (build, mark, compile, train, resume, feed, cast, hand over by any of nine routes); they and random ones are replayed on random compositions of every module class of the package, and TLC checks that every aspect observed (parameters, state, key, marks, optimizer, shapes, module tree, outputs, bit for bit) is a function of the history the specification assigns to the object.",
 "C17": "As C06 for histories of up to three objects built and treated alike with other models in between, plus trees of modules that show the random key they were given at compilation and evaluation.",
 "C14": "TLC explores every history of two calibrated objects with a quantile cache over all small score multisets (coverage, nesting, coherence of the cache); enumerated and random histories of calibrations, requests and hand-overs replayed on real conformalized models, with integer-exact score quantiles predicted by the specification and, for general models and options, coverage counts and interval order judged by it.",
 "C15": "As C14, for histories with saving and loading by seven routes: the answers of a loaded object must be those the specification assigns to its calibration.",
 "C13": "TLC proves the inverse law and the documented statistics on all small columns and explores all fit/refit/use/pass-on histories; enumerated and random histories replayed on real scalers (every class, option form, PyTree layout, mixed and nested), each transformed number compared with the exact rational the specification computes from the last fitted integers.",
 "C16": "TLC explores training runs with a signal arriving at every point of the epoch loop; its behaviours and random runs are replayed into verbose and silent training with real signals (interrupt and termination, through own, default and ignored handlers, with failing callbacks in between), and TLC judges the epochs run, the parameters handed back and the signal dispositions of the process before, during and after each run.",
 "C11": "Each module's documented function written as TLA+ operators on integer (Gaussian-integer, half-integer) tensors, with algebraic laws checked by TLC on all small tensors; random option combinations, parameters, PyTree structures and inputs run through real modules, alone and inside models, and TLC computes the exact expected output of every sample. Values are small integers; transcendental activation functions are outside the exact arithmetic.",
 "C12": "TLC checks the laws of the selection rules on every small spectrum; every combination of size, count, rule and module (quick: sizes up to 5) is run on matrices with known integer spectra, real and Hermitian, alone and in PyTrees, and TLC decides whether eigenvalues and eigenvectors returned are those the rule selects.",
 "C08": "TLC explores every split of small data sets into batches with state threaded through them; every combination of sample count, limit and option in two-call histories, and longer random histories, are replayed on models of probes that show the state each batch started from (exact) and on random compositions of the package's modules (up to rounding), and judged by TLC.",
 "C10": "TLC explores histories of compiling, editing, declaring and calling with right and wrong data types; enumerated and random histories replayed on random compositions of every module class (and on shape-generic ones compiled for several types), with the declared output type of the model and of every module, the type evaluation produces, refusals and the unchanged digest of the model after a refusal judged by TLC.",
 "C18": "TLC checks on all small polynomial models that forward accumulation, reverse accumulation and difference quotients agree, and explores histories of requests, assignments and edits; they and random ones are replayed with every mode, batch limit and option on models of integer-exact modules in every container, where TLC computes the exact Jacobian of the current function for each sample, and on random compositions of the package's modules, where all modes and batch layouts must agree up to rounding. Real-valued inputs, outputs and parameters only: JAX itself refuses the others.",
 "C21": "The named losses, the validation mean over batches and the derivative of each batch loss in fixed-point integers; laws checked by TLC on all small cases; random PyTree cases trained with a module that looks predictions up in its parameters, so that two target losses just below and above the expected value and the first update reveal loss and derivative, judged by TLC.",
 "C22": "TLC explores histories of reads, writes (right, wrong shape, wrong structure) and precision changes; they and random ones are replayed on random compositions of every module class, and TLC decides whether values, types, outputs and refusals are those the history implies.",
 "C23": "The Adam rule in fixed-point integers in TLA+ (TLC checks its laws on all short gradient sequences); enumerated and random histories of epochs, callbacks, freezing and resumption with random options and schedules are run on real and complex parameters whose gradients are known integers, and TLC computes what every entry must be after every epoch, up to a rounding allowance.",
 "C24": "The three terms of the heuristic, the cutoff, the deviation and the bias correction in integer and fixed-point arithmetic in TLA+ (TLC checks their laws on small data sets); random polynomial models with categorical and continuous leaves are calibrated, queried, recalibrated and reloaded, and TLC computes every term from the data up to a rounding allowance.",
 "C25": "Leafwise operations, cutting, joining, splitting and permuting of integer tensors in trees in TLA+ (TLC checks their laws on all small trees); random trees, axes and piece sizes run through tree_util and TLC computes the exact result.",
}
NA = {}
