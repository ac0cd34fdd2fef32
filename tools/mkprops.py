"""Writes properties.jsonl and MANIFEST.json for the properties whose check
module exists (checks/cNN.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "parametricmatrixmodels/"


def prop(id, title, statement, over, text, why, files, mech, tech):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=[P + f for f in files],
        mech=[dict(name=n, where=P + w) for n, w in mech], tech=tech,
    )


PROPS = [
    prop(
        "C01", "A sequential model is the in-order composition of its modules",
        "Evaluating a compiled sequential model, however its modules are nested in lists, tuples or further models, gives the value obtained by feeding the input through the modules one after the other in the order they were given, each with its own current parameters and state, in inference mode. The state returned with it is the state each module is left with, and random modules draw from keys that depend only on the key of the call and differ between modules.",
        ["inputs", "programs", "configurations"],
        "every module list and nesting, every input tree, batch size, parameter, state and key value",
        "Tests run two or three fixed pipelines with fixed shapes; composition has to hold for every program of modules.",
        ["sequentialmodel.py", "model.py", "model_util.py"],
        [("forward pass of a sequential model", "sequentialmodel.py"), ("prediction entry point", "model.py")],
        "runtime monitoring: reference-model oracle (module-by-module fold and closed NumPy formulas) over instrumented user modules",
    ),
    prop(
        "C02", "A graph model evaluates exactly the graph its connections describe",
        "A model built from named modules and connections gives every module exactly the values its incoming connections name - whole outputs, sub-trees or single leaves, routed to the named places, several values for one place collected in a list in connection order - and returns what is connected to the output, regardless of the order in which modules and connections are listed. A chain of connections equals the sequential model of the same modules. Graphs that cannot be evaluated (cycles, nothing reaching the output, unknown or reserved names) are refused with an error and never evaluated.",
        ["inputs", "programs", "configurations"],
        "every directed acyclic graph of modules, every routing of sub-trees, every listing order, every input tree",
        "Tests cover a handful of small graphs; routing and execution order depend on the whole graph.",
        ["nonsequentialmodel.py", "graph_util.py", "tree_util.py"],
        [("execution order", "graph_util.py"), ("gathering of module inputs", "nonsequentialmodel.py")],
        "runtime monitoring: instrumented modules in random graphs, observed values compared with an independent graph interpreter",
    ),
    prop(
        "C03", "Results per sample do not depend on how samples are batched",
        "For a model without cross-sample modules, predictions and gradients of every sample are the same, up to rounding, whether samples are evaluated together, alone, reordered, or in batches of at most any given size with or without avoiding recompilation, and exactly one result per sample comes back in the order of the samples. Whatever the batching, stateful modules see every sample exactly once and the returned state is the one after all of them.",
        ["inputs", "configurations", "histories"],
        "every model, data size, maximum batch size, option combination and sequence of calls with different options on one object",
        "Tests never predict with a batch limit; remainders, sizes larger than the data and option changes between calls are untested.",
        ["model_util.py", "model.py"],
        [("batched evaluation", "model_util.py"), ("caching of the batched callables", "model.py")],
        "runtime monitoring: metamorphic oracle over batchings plus conservation counters inside the model",
    ),
    prop(
        "C04", "Announced output shapes are the real ones; wrong inputs are refused",
        "For every module and model and every input shape they accept, the output shape they announce (for trees of arrays: structure and the shape of every leaf) is exactly the shape of what evaluation returns for any number of samples. A model evaluated, differentiated or trained with input data whose structure or feature shape differs from the one it was compiled for, or evaluated before it was compiled, raises an error instead of returning a value.",
        ["inputs", "configurations"],
        "every module, hyperparameter choice, input tree and number of samples; every deviation from the compiled shape",
        "Each module is tested with one or two shapes and single arrays; trees, negative axes and wrong inputs are mostly untested.",
        ["modules/", "sequentialmodel.py", "nonsequentialmodel.py", "model.py"],
        [("shape propagation", "sequentialmodel.py"), ("input verification", "model.py"), ("output shapes", "modules/")],
        "runtime monitoring: shape assertions on every module of a generated catalog and on random models; refusal monitors with mutated inputs",
    ),
    prop(
        "C05", "Saving, serializing or copying a model loses nothing",
        "A compiled model that was saved to a file (compressed or not, by name, path or handle), serialized, or copied, and restored - in the same or another process - gives bit-identical predictions and gradients and has the same parameters, states, random key, hyperparameters, shapes, names and trainable flags, and training it further with the same seeds, resumed or not, gives the same parameters as training the original. The restored model and a copy share nothing with the original: changing one never changes the other, and saving changes nothing.",
        ["inputs", "configurations", "histories"],
        "every module and model structure, every hyperparameter choice, every history of training and parameter changes before and after",
        "Tests save one trained model and compare predictions; structures, hyperparameters, optimizer state and other modules are not covered.",
        ["model.py", "modules/basemodule.py", "nonsequentialmodel.py", "training.py"],
        [("serialize and deserialize", "model.py"), ("module serialization", "modules/basemodule.py"), ("optimizer state serialization", "training.py")],
        "runtime monitoring: differential execution of original and restored model (also across processes), bit-wise state comparison, aliasing monitors",
    ),
    prop(
        "C06", "Training never changes the parameters of frozen modules",
        "Whatever module or nested model is marked not trainable, and whatever the optimizer options and loss, training leaves every parameter of it bit-identical, while trainable parameters that influence the loss are updated exactly as they would be if the frozen ones were constants. Freezing and unfreezing between runs takes effect in the next run, also when it resumes.",
        ["inputs", "configurations", "histories"],
        "every model, every choice of frozen modules, every sequence of training runs with changing flags",
        "One test freezes one module of one model.",
        ["training.py", "model.py", "modules/basemodule.py"],
        [("trainable flags", "model.py"), ("masked update", "training.py")],
        "runtime monitoring: bit-wise parameter snapshots per epoch (callback trace) against the flags; differential run with constants",
    ),
    prop(
        "C07", "Training returns the best-validation parameters and stops by its rules",
        "With validation data, training ends with the parameters (and state) that had the lowest validation loss of all seen, the initial ones included, the first of equals, never those of an epoch with a NaN loss; the validation loss is the given validation loss averaged over the validation batches, which together contain every validation sample once, independent of the training batches. It stops after the requested number of epochs, as soon as the best validation loss reaches the target, or after the given patience of epochs without the given improvement, and not otherwise; the callback sees every epoch once, in order, with the parameters after it.",
        ["inputs", "configurations", "histories"],
        "every model, loss curve, patience, minimum improvement, target and validation batch size",
        "Tests only check that a loss went down; stopping rules and the selection of parameters depend on the whole loss history.",
        ["training.py"],
        [("training loop", "training.py"), ("early stopping", "training.py")],
        "runtime monitoring: online checker over the epoch trace recorded through callback and loss instrumentation",
    ),
    prop(
        "C08", "Every training sample is used exactly once per epoch, with its own target",
        "In every epoch of training each sample enters the loss exactly once, in batches of the requested size plus at most one smaller remainder, its target, its uncertainty and all leaves of its inputs staying together; the order is a fresh permutation in each epoch that depends only on the batch seed. Validation samples never enter an update: with the same seeds, different validation data gives the same sequence of parameters.",
        ["inputs", "schedules", "configurations"],
        "every dataset size, batch size, tree structure of data, seed and number of epochs",
        "Tests cannot see which samples an epoch used; a dropped remainder or mispaired target still trains.",
        ["training.py"],
        [("batching and shuffling", "training.py"), ("remainder batch", "training.py")],
        "runtime monitoring: event log of every loss evaluation (sample identities emitted from inside the compiled training loop), exactly-once and pairing checker",
    ),
    prop(
        "C09", "Training follows the Adam trajectory of the given options",
        "Every parameter update during training is the Adam update for the gradient of the batch loss with the given learning rate or schedule (evaluated at the epoch), decay rates, epsilon and elementwise gradient clipping, for real and complex parameters, with bias correction counting the epochs. Resuming continues the same trajectory, so training n and then m epochs equals training n+m; without resuming the optimizer starts afresh.",
        ["inputs", "histories", "configurations"],
        "every model, dataset, option value, schedule and split of the epochs into runs",
        "Tests check that training reduces a loss, which many wrong updates also do.",
        ["training.py", "model.py"],
        [("Adam and complex Adam", "training.py"), ("update step", "training.py")],
        "runtime monitoring: recorded parameter trajectory compared step by step with an independent NumPy Adam",
    ),
    prop(
        "C10", "The named losses are the documented formulas",
        "Each named loss equals its documented formula - mean squared, mean absolute, pseudo-Huber and relative error and relative difference, divided by the target uncertainties (squared for the squared error) in the _unc forms, against the inputs in the unsupervised forms, averaged over every sample and output component of every leaf - for arrays and trees of outputs, real or complex, and custom loss functions receive the epoch, inputs, targets, uncertainties and predictions of one and the same batch. Loss names that do not exist and arguments that do not fit raise an error.",
        ["inputs", "configurations"],
        "every loss name, output tree, uncertainty, data size and custom loss",
        "Tests use the squared error on arrays only.",
        ["training.py", "model.py", "tree_util.py"],
        [("loss construction", "training.py"), ("custom loss wrapping", "model.py")],
        "runtime monitoring: loss values captured through the public training interface and compared with NumPy formulas",
    ),
    prop(
        "C11", "Gradients are the derivatives of the model's own predictions",
        "The input and parameter gradients returned for a model are, for every sample, the partial derivatives of that sample's prediction with respect to that sample's input and to every parameter, laid out as output structure over input (or parameter) structure; forward and reverse mode agree, also when switched between calls, and computing gradients changes nothing in the model. Gradients follow parameter changes made between calls.",
        ["inputs", "configurations", "histories"],
        "every differentiable model, input tree, mode and batching, every sequence of calls and parameter changes",
        "No test calls the gradient functions with trees or compares them with finite differences.",
        ["model.py", "sequentialmodel.py", "nonsequentialmodel.py"],
        [("input gradients", "model.py"), ("parameter gradients", "model.py")],
        "runtime monitoring: finite-difference oracle in double precision on the model's own predictions",
    ),
    prop(
        "C12", "Affine matrices are Hermitian and eigen-modules return the requested pairs",
        "Affine matrix modules return exactly the affine combination of their matrices with the input features, with the documented bias and smoothing terms, Hermitian for every input and of limited rank for the low-rank form. Eigen-modules return true eigenvalues and orthonormal eigenvectors of the matrix they are given, the ones selected by the requested rule (smallest, largest, by magnitude, exterior, interior) in ascending order, with pairs matching, for single matrices, batches and trees.",
        ["inputs", "configurations"],
        "every matrix size, number of features, rank, bias, smoothing, selection rule, number of eigenvalues, and matrix including degenerate ones",
        "Tests compare a few fixed small matrices; selection rules depend on the spectrum.",
        ["modules/affinehermitianmatrix.py", "modules/lowrankaffinehermitianmatrix.py", "modules/affinetensor.py", "modules/_smoothing.py", "modules/eigenvalues.py", "modules/eigenvectors.py", "modules/eigensystem.py", "eigen_util.py"],
        [("affine combination", "modules/affinehermitianmatrix.py"), ("selection of eigenpairs", "eigen_util.py")],
        "runtime monitoring: NumPy linear algebra oracle and defining-equation assertions on observed outputs",
    ),
    prop(
        "C13", "Observable modules and ready-made PMMs compute the documented physics",
        "Expectation-value and transition-amplitude sums equal their documented formulas over all states and observables, real, including the centering and bias terms, and do not depend on the phase of any eigenvector. The affine eigenvalue, affine observable and linear-layer models return what the documented chain of affine matrix, eigensystem, observables, bias and activation gives for their current parameters.",
        ["inputs", "configurations"],
        "every number of states, observables and outputs, every parameter and input value, every phase",
        "Tests use one or two fixed matrices and sizes.",
        ["modules/expectationvaluesum.py", "modules/transitionamplitudesum.py", "modules/affineeigenvaluepmm.py", "modules/affineobservablepmm.py", "modules/linearnn.py"],
        [("expectation values", "modules/expectationvaluesum.py"), ("transition amplitudes", "modules/transitionamplitudesum.py")],
        "runtime monitoring: NumPy reference implementation and phase-metamorphic oracle",
    ),
    prop(
        "C14", "Conformal intervals cover, nest, and follow the latest calibration",
        "After calibration with n points, the interval of level 1-alpha contains, for every output component, at least k = ceil((n+1)(1-alpha)) of the calibration targets and is no wider than it must be to contain one more, and it is infinite when k exceeds n (and only then); lower alpha never gives a narrower interval, and the interval contains the (corrected) prediction with the lower bound never above the upper. Quantiles belong to the latest calibration only, never to an earlier one, for any order of calibrating and predicting at different levels.",
        ["inputs", "configurations", "histories"],
        "every model, calibration set, level, option set, and sequence of calibrations and predictions",
        "Tests check coverage of one random data set statistically; the finite-sample count, ties and recalibration are not covered.",
        ["conformal/conformalizedmodel.py"],
        [("calibration quantiles", "conformal/conformalizedmodel.py"), ("interval construction", "conformal/conformalizedmodel.py")],
        "runtime monitoring: counting oracle over calibration data and call histories against the interval returned",
    ),
    prop(
        "C15", "Conformal uncertainty heuristics are the documented ones and persist",
        "The per-sample uncertainty that scales conformal intervals is the sum of exactly the requested sensitivities - parameter gradients scaled with the parameters, input gradients of continuous features scaled with their interquartile range (and with given input uncertainties), and the distance to the training points, categories counting as equal or different - by their documented formulas, each normalized by its median absolute deviation over the calibration data, weighted by inverse target uncertainties if given. Bias corrections are the median residuals, globally or of each stratum, and zero for strata never seen. A conformalized model that is saved or serialized and restored gives identical predictions, intervals and heuristics, at levels used before or not, also when both are calibrated again.",
        ["inputs", "configurations"],
        "every option combination, data set, feature tree, number of neighbours and strata",
        "Tests check that calls run and that coverage is about right.",
        ["conformal/conformalizedmodel.py"],
        [("sensitivities", "conformal/conformalizedmodel.py"), ("persistence", "conformal/conformalizedmodel.py")],
        "runtime monitoring: NumPy reference of each heuristic and differential run of the reloaded model",
    ),
    prop(
        "C16", "Scalers and one-hot encoders invert exactly and never mix data",
        "Fitted scalers map the data they were fitted to, per feature and per leaf of a tree, to the documented statistics (zero mean and unit deviation, the given minimum and maximum, zero median and unit given quantile range), finitely and without blowing up constant features; they apply that same map to any other data, sample by sample, and their inverse undoes it. Options given per leaf or per feature apply only there, and leaves with option None are not scaled. One-hot encoding marks exactly the category of each sample, all zeros for categories never seen, and decoding restores the data; a mixed scaler applies each scaler to its own leaf only. A fitted scaler restored from a file or its serialized form acts identically, fitting again forgets the earlier data, and using an unfitted scaler raises an error.",
        ["inputs", "configurations"],
        "every data tree, dtype, option value per leaf, feature shape and constant feature",
        "Tests round-trip one array per scaler.",
        ["preprocessing/"],
        [("fit, transform and inverse", "preprocessing/"), ("one-hot encoding", "preprocessing/onehot.py")],
        "runtime monitoring: NumPy reference statistics and round-trip oracle on generated trees",
    ),
    prop(
        "C17", "Tree utilities obey their algebra and paths address what they name",
        "The tree utilities act leaf by leaf as documented for every tree: arithmetic, absolute values, powers, means and concatenation equal the NumPy results; safe casting preserves values and structure and refuses to turn complex leaves into real ones; splitting into batches and concatenating them are inverse and shuffling applies one permutation of the samples to all leaves; shape, equality and uniformity predicates are true exactly when the trees agree. Reading a path gives the addressed item, writing to a path and extending a structure by paths changes nothing else, and existing values are never overwritten by an extension. Concretized connection paths are distinct and never lie inside one another, and the execution order of a graph contains exactly the modules between input and output, each after its sources, graphs with cycles or unreachable outputs being refused.",
        ["inputs"],
        "every tree (dicts, lists, tuples, nested), leaf shapes and dtypes, and path",
        "Tests exercise a few functions on one or two trees.",
        ["tree_util.py", "graph_util.py"],
        [("tree helpers", "tree_util.py"), ("path resolution", "graph_util.py")],
        "runtime monitoring: algebraic and NumPy oracles over random trees",
    ),
    prop(
        "C18", "Every basic module computes its documented formula",
        "Linear layers, biases, matrix products, einsum, constants, reshaping, flattening, concatenation, tree selection, function wrappers, and all activation functions return, for every hyperparameter choice, parameter value and input tree, the value of their documented formula, independently for every sample and leaf, and leave other leaves untouched.",
        ["inputs", "configurations"],
        "every module of the catalogue, hyperparameters, parameter values, input trees and batch sizes",
        "Tests use one fixed example per module and compare activations with the same library function only on one array.",
        ["modules/"],
        [("module callables", "modules/")],
        "runtime monitoring: NumPy reference of each module evaluated next to the real one",
    ),
    prop(
        "C19", "Results depend only on the current configuration, never on call history",
        "Predictions, gradients and training depend only on the model's current modules, parameters, state and the arguments: after any sequence of compiling, recompiling for another shape, predicting, differentiating, training, setting parameters, state or precision, and editing modules, a model gives what a freshly built model with the same content gives. Refused calls change nothing. No call changes its input data, and prediction and gradients change no parameter, state, key or flag; verbose output changes no result and leaves process-wide settings such as signal handlers as they were.",
        ["histories", "configurations"],
        "every sequence of public operations on one model object",
        "Tests use each model once; stale caches need particular sequences of calls.",
        ["model.py", "sequentialmodel.py", "nonsequentialmodel.py", "training.py", "modules/basemodule.py"],
        [("caching of compiled callables", "model.py"), ("reset on change", "model.py")],
        "runtime monitoring: stateful random operation sequences checked after every step against a fresh model and an input/state immutability monitor",
    ),
    prop(
        "C20", "Editing a model's module list changes exactly what was asked",
        "Inserting, appending, prepending, removing, replacing and reading modules by index, negative index, slice, name or path acts on lists, tuples and dictionaries as the corresponding Python operation would, requires the model to be compiled again, and keeps all other modules with their parameters, also when compiling again; adding a module to a model with + leaves both operands unchanged. Impossible edits, such as unknown indices or names or a name already in use, raise an error and leave the modules as they were.",
        ["histories", "inputs"],
        "every sequence of edits on every container",
        "Tests append and index once.",
        ["model.py", "sequentialmodel.py", "nonsequentialmodel.py"],
        [("module editing", "model.py")],
        "runtime monitoring: random edit scripts run against the model and a plain Python container in lock step",
    ),
    prop(
        "C21", "Equal seeds reproduce everything; precision conversion keeps values",
        "Building, compiling, training and predicting with the same seeds, given as integers or keys, gives bit-identical parameters, states and outputs each time and in another process, and different compile seeds give different parameters, modules of one model never sharing their random initial values. Changing the precision converts every parameter and state of every nested module to that precision keeping its value, is refused where double precision is not enabled, and never turns complex parameters real.",
        ["inputs", "configurations", "histories"],
        "every model, seed, seed form and precision name",
        "Tests fix a seed once and do not compare runs or processes.",
        ["model.py", "sequentialmodel.py", "nonsequentialmodel.py", "training.py", "modules/basemodule.py"],
        [("key handling", "model.py"), ("precision", "modules/basemodule.py")],
        "runtime monitoring: repeated and cross-process executions compared bit by bit",
    ),
    prop(
        "C22", "Training with state and randomness behaves like its sequential meaning",
        "During training modules run in training mode and during validation and prediction in inference mode; the state of every module is threaded through all training batches of all epochs in order, validation never alters it, and the model ends with the state belonging to the returned parameters. Random modules see a fresh key in every training batch, derived from the model's key, and the key advances so that a second run does not repeat the first.",
        ["histories", "schedules", "configurations"],
        "every stateful or random module, number of batches, epochs and validation setting",
        "No test contains a stateful or random module.",
        ["training.py", "model.py"],
        [("threading of state and keys", "training.py")],
        "runtime monitoring: counting, recording and random instrument modules observed through state and event log",
    ),
]


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None),
            )) + "\n")
    man = dict(
        version=1,
        setup_cmd="./tools/setup.sh",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"./check {p['id']} --tier quick",
                thorough_cmd=f"./check {p['id']} --tier thorough",
                technique=p["tech"],
                level="exploration",
                level_note="Executions observed by monitors; workloads are random but seeded, bounds in DESIGN.md.",
            )
            for p in have
        ],
        not_applicable=[],
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


if __name__ == "__main__":
    main()
