"""Writes known_findings.json (edited here by hand, never at run time)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C08", "b24806f", "NonSequentialModel callables replaced entries inside the state tree they were given, so a prediction or validation pass that must not change the state changed it (also C09, C03)"),
 ("C05", "1811808", "the optimizer state stored with the best epoch had an epoch counter one too low, so resuming repeated an epoch of the learning-rate schedule"),
 ("C21", "cc017f8", "a custom validation loss was called with targets None when no validation set was given"),
 ("C04", "4f66677", "modules frozen inside a nested model were trained all the same"),
 ("C05", "fca8b46", "resuming after set_params silently went back to the parameters of the stored optimizer state"),
 ("C06", "4eef83f", "saving a model whose modules are kept in a tuple or a ragged container raised or lost the structure"),
 ("C07", "2da820d", "model + module appended the module to the original model as well"),
 ("C07", "49d4fa3", "replacing a module of a tuple-held model raised, removing one by a negative index duplicated modules"),
 ("C07", "acf0b0c", "a recompiled model, or a model whose nested model was edited, predicted with callables and output shapes from before"),
 ("C19", "e97b561", "extend_structure_from_strpaths modified the base tree it was given"),
 ("C19", "e17d446", "extend_structure_from_strpaths raised for tuples nested inside tuples"),
 ("C20", "fd74ad5", "modules or groups whose names begin with 'input' or 'output' were mistaken for the model input or output (also C09)"),
 ("C11", "0f33ac7", "Einsum with several given leading arrays compared index strings with the arrays instead of their shapes and raised (also C10)"),
 ("C11", "d102a8c", "Einsum and MatMul without leading arrays could not be evaluated in a model, and a frozen one ignored the parameters its callable was given (also C18, C22)"),
 ("C04", "e198cd5", "freezing an Einsum or MatMul before compilation, or unfreezing one without leading arrays, changed what it computes"),
 ("C06", "b1efd0a", "MatMul lost its separator when its hyperparameters were set"),
 ("C11", "3caedae", "MatMul refused an output_shape with an inferred first dimension"),
 ("C11", "cc42259", "ConcatenateLeaves with a negative axis concatenated along the wrong axis (also C10)"),
 ("C06", "f1ce0ef", "ConcatenateLeaves lost path_order and separator when saved"),
 ("C06", "51adbda", "a saved LowRankAffineHermitianMatrix could not be loaded"),
 ("C10", "3b4f27e", "Eigenvalues declared a wrong output shape for all eigenvalues of PyTree inputs"),
 ("C11", "c1ed13e", "Reshape refused the documented None leaves in a PyTree of shapes"),
 ("C04", "ba27006", "a trainable Constant frozen before compilation could not be compiled"),
 ("C04", "154f58e", "LinearNN, AffineEigenvaluePMM and AffineObservablePMM forgot that they were frozen before compilation"),
 ("C11", "67b48d7", "AffineObservablePMM ignored the bias it was given"),
 ("C06", "4c6387e", "AffineEigenvaluePMM and AffineObservablePMM lost given matrices when saved before compilation"),
 ("C06", "0a3e599", "models that were not compiled could not be saved and loaded"),
 ("C17", "5c5b260", "all modules of a NonSequentialModel were given the same random key"),
 ("C06", "6a6a328", "a model saved to a Path without suffix could not be loaded from the same Path"),
 ("C13", "0e56d98", 'OneHot mixed up the values of features with several components'),
 ("C13", "b58af02", 'OneHot refused PyTrees whose leaves have different numbers of values'),
 ("C13", "3298b1b", 'scalers of lists or tuples could not be saved and loaded, nor from a Path without suffix'),
 ("C13", "95f961f", 'MinMaxScaler and RobustScaler refused the documented None entries in PyTrees of ranges'),
 ("C13", "a571f5c", 'MinMaxScaler refused a bound of None for PyTrees'),
 ("C13", "c53da26", 'MinMaxScaler and RobustScaler with a range given as an array could not be deserialized'),
 ("C13", "ab9afd9", 'RobustScaler could not transform data with more than one feature'),
 ("C13", "6fa9115", 'RobustScaler refused PyTrees unless every option was given as a PyTree'),
 ("C13", "42f653f", 'RobustScaler with an array of quantiles computed all of them for every feature'),
 ("C13", "a1acd07", 'StandardScaler and MinMaxScaler turned constant features into NaN'),
 ("C18", "92ae508", 'grad_input refused PyTrees whose leaves have different sizes'),
 ("C14", "930804c", 'intervals after a second calibration used the quantiles of the first one'),
 ("C15", "fe1d887", 'a conformalized model saved without suffix could not be loaded by the same name'),
 ("C15", "9f58915", 'the name of a loaded conformalized model was an array'),
 ("C14", "115160b", 'stratified bias corrections only worked for outputs with a single component'),
 ("C14", "594bcee", 'the distance sensitivity was added along the wrong axes for outputs with several dimensions'),
 ("C14", "7e48d5e", 'conformal calibration refused categorical features with several components'),
 ("C14", "442eb6a", 'conformal intervals were NaN if all features are categorical'),
 ("C14", "a6c1482", 'input uncertainties were not matched with their samples in the conformal heuristic'),
 ("C14", "1c6a7c9", 'conformal calibration with target uncertainties failed and sorted by the weights'),
 ("C14", "2677e22", 'conformal calibration with training data but without distance sensitivity failed'),
 ("C14", "4cb0129", 'conformal calibration failed for training data with a constant feature'),
 ("C06", "66d5adc", 'LinearNN lost its activation when saved before compilation'),
 ("C14", "78238da", 'scalar_add, scalar_mul and mean refused PyTrees whose leaves have different shapes'),
 ("C13", "ec0a83e", 'MinMaxScaler did not invert its scaling of constant features'),
 ("C16", "13a25ef", 'signals did not end verbose training, whose handlers stayed installed after it'),
 ("C08", "b68dabd", 'predictions without recompilation failed on remaining samples that are scalars'),
 ("C22", "d04809d", 'parameters or state of the wrong shape were accepted by several modules, or applied in part before the refusal'),
 ("C22", "058a005", 'changing the precision turned integer module state into floats'),
 ("C10", "f6a676d", 'a compiled NonSequentialModel declared its own output shape for every input shape'),
 ("C10", "f267c48", 'asking a Flatten module for an output shape changed the shape it was compiled for'),
 ("C18", "2badc00", 'the state after input gradients had a sample axis, and batched input gradients of stateful models failed'),
 ("C18", "03added", 'gradients kept the differentiation mode of an earlier call'),
 ("C21", "3868b06", 'the pseudo-Huber loss failed on PyTrees'),
 ("C23", "11164f1", 'the complex optimizer advanced its epoch counter with every batch and again with every epoch, so bias correction and learning rate schedules of complex parameters ran ahead'),
 ("C13", "0723c77", 'RobustScaler refused None quantiles in a PyTree together with PyTrees of options'),
 ("C24", "51f5eb0", 'categories that do not occur in the training data were at half the distance of a mismatch'),
]
FINDINGS = [
 dict(property="C07", key="dict-order-construct", what="SequentialModel({'keyB': first, 'keyA': second}) applies the modules in the sorted order of the keys (keyA, keyB) although the documentation promises insertion order (sequentialmodel.py __init__; jax.tree sorts dictionary keys). Not repaired: parameters, state, saving and the optimizer all use the same sorted order, so changing it is not a small patch"),
 dict(property="C07", key="dict-order-append", what="append_module(module, key='keyA') on a model whose modules are kept in a dictionary with key 'keyB' puts the module first, not last, because dictionary keys are applied in sorted order (model.py insert_module); without a key argument a random UUID decides"),
]
json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
